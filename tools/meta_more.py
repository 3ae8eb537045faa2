# Executed by meta.py
prop(
    "C23", "Reducing sampled maps to boundary masks or single field lines",
    "modify_maps of maps made with several field lines per cell: with partial_boundaries=True exactly the cells of which any sample leaves the domain are marked "
    "with xt_prime = -1 in that direction, all other positions are unchanged, and the operators are the averages of the original samples. With partial_boundaries=False "
    "cells of which only some samples leave follow their centre (all samples are replaced by the centre's line if that leaves the domain, otherwise only those "
    "which leave), so that every cell has exactly one leg of weight one per direction. The sampled maps and sample weights are removed, the same dictionary is "
    "returned and all other entries are unchanged. Operators made from real maps have rows which sum to 1 and refer to the neighbouring slice.",
    ["inputs"], "all patterns of samples which leave the domain, both modes and directions",
    "The tests run one field in which hardly any sample hits a boundary.",
    [Z + "weights.py"], [("treatment of partly hitting cells", Z + "weights.py:modify_maps")],
    "Synthetic maps with generated hit patterns and operators against a loop model, plus maps of real fields end to end.",
    "property-based testing: loop reference model over generated hit patterns")
prop(
    "C24", "What is written to a grid file is read back as it was",
    "For every grid, set of maps and options (old or new metric names, 2D or 3D metric, any number of parallel slices), the grid file contains every map exactly, "
    "with sizes nx, ny, nz, ixseps = nx + 1, MYG = number of slices, and R, Z of the cells; metric2d=True only drops the z dependence of metric components "
    "while parallel-slice variables and attributes of the field stay 3D. Each file has a new unique id. Additional variables can be added before or after maps and to reopened files, "
    "where everything else is kept and variables of the same name are replaced.",
    ["inputs", "histories"], "all grids, maps, options and orders of adding variables",
    "The tests write one file with one set of options and do not read all variables back.",
    [Z + "zoidberg.py"], [("writer", Z + "zoidberg.py:MapWriter"), ("one call", Z + "zoidberg.py:write_maps")],
    "Files are written in a scratch directory and read back with netCDF4; bit-exact comparison.",
    "property-based testing: round trip, generated histories of writes")
prop(
    "C25", "Metric, field strength and pressure in grid files belong to the positions",
    "For every grid and field, the metric in the file is, at each cell of each slice, the poloidal metric of that slice's grid, dy of the y grid, B = Bxy = |B|, the "
    "pressure at the cell, g22 = (By/(B R))^2, g_yy = 1/g22 and g_22 (also at the lower and upper cell edge) = (length of field line per dy)^2. Variables of parallel "
    "slices are the same quantities at the positions where the field lines from that slice end (on curvilinear grids), with dy of the slice reached.",
    ["inputs"], "all grids, fields with or without pressure, numbers of parallel slices",
    "The tests only check that a file is written.",
    [Z + "zoidberg.py"], [("metric of the slices and parallel slices", Z + "zoidberg.py:MapWriter.add_grid_field"), ("maps", Z + "zoidberg.py:MapWriter.add_maps")],
    "Independent formulas at the positions; metric of parallel slices on rectangular grids is a recorded finding.",
    "property-based testing: independent formulas at generated positions")
prop(
    "C26", "Making maps and writing files does not change the grid, field or maps",
    "For every history of making metrics, poloidal grids, maps and files with the same objects, each result is the same as with freshly made objects, i.e. no step modifies "
    "the grid, its metric, the field or the maps. Maps with values which are not finite are rejected rather than written, and steps in the wrong order are rejected.",
    ["inputs", "histories"], "all histories of operations on shared objects, all positions of a non-finite value",
    "Each test makes its objects anew, so leaks from one step to the next are never seen.",
    [Z + "zoidberg.py", Z + "grid.py"], [("metric", Z + "grid.py:Grid.metric"), ("writer", Z + "zoidberg.py:MapWriter")],
    "Stateful histories compared with the same step on fresh objects.",
    "property-based testing: stateful histories, differential against fresh objects")
prop(
    "C27", "DAGP finite-volume coefficients are the fluxes through the cell faces",
    "For every curvilinear or rectangular poloidal grid, the DAGP coefficients give the exact flux of every linear function through each cell face, the volumes are those "
    "of the cells, on rectangular grids they have the closed form, and the operator built from them converges with second order to the Laplacian. The coefficients in a file are those of "
    "each slice, zero at the ends in x where faces do not exist, and reading them back gives the same arrays.",
    ["inputs"], "all poloidal grids without folded cells",
    "test for DAGP only covers the example of one analytic grid.",
    [Z + "stencil_dagp_fv.py"], [("per slice", Z + "stencil_dagp_fv.py:doit"), ("read back", Z + "stencil_dagp_fv.py:load")],
    "Exact geometry of the cells (polygon areas, fluxes of linear functions); step halving for the order.",
    "property-based testing: exactness on linear functions, convergence order, round trip")
prop(
    "C28", "Interrupted computations of DAGP coefficients are completed correctly",
    "If MapWriter.add_dagp is interrupted at any point (any number of times) and the file is closed, reopening it and running add_dagp again gives the same coefficients as an uninterrupted "
    "run; slices which were finished are not computed again and a completed file is left as it is.",
    ["inputs", "crash_points", "histories"], "all interruption points and sequences of interruptions",
    "No test interrupts the computation.",
    [Z + "zoidberg.py", Z + "stencil_dagp_fv.py"], [("progress counter and restart", Z + "zoidberg.py:MapWriter.add_dagp")],
    "An exception is injected at a generated executed line of the module (settrace), then the computation is resumed and compared with an uninterrupted one; the process itself survives.",
    "property-based testing: injected interruptions at generated execution points, differential against an uninterrupted run")
prop(
    "C29", "Finite differences and field line lengths have their stated accuracy",
    "For every array, axis, data type and memory layout, c2 and c4 are exact for polynomials up to degree 2 and 4 including the ends, have the known factors for waves on "
    "periodic arrays, are linear, and do not modify the input. field_line_length gives the length of a line sampled at increasing y in cylindrical coordinates within "
    "the interpolation error, for any number and shape of lines.",
    ["inputs"], "all arrays, axes, dtypes; all smooth lines",
    "Tests use one sine wave.",
    [Z + "diff.py"], [("differences", Z + "diff.py:c2"), ("fourth order", Z + "diff.py:c4"), ("lengths", Z + "diff.py:field_line_length")],
    "Closed forms; quadrature for the lengths.", "property-based testing: closed forms, metamorphic relations")

prop(
    "C30", "Smoothing replaces sharp edges of a closed line, and nothing else",
    "For every closed line, smooth returns as many points as it was given and leaves its inputs alone. A point is sharp if, for any distance up to bounds_find (by default bounds), the cos between "
    "the steps from that point's successor at that distance back to the point and back to the point twice that distance away is below the cutoff. Lines without sharp points are returned unchanged. Otherwise, points which are not close to a sharp point are "
    "unchanged, and (for polygons) exactly the points within bounds of sharp ones are replaced by cubics which connect to the rest of the line in position and direction. The result does not "
    "depend on which point of the line is the first, nor on rotation or translation. If half of the line would be replaced it is rejected.",
    ["inputs"], "all closed lines, cutoffs and ranges",
    "Tests use two polygons with corners at fixed places away from the first point.",
    [Z + "smooth.py"], [("criterion", Z + "smooth.py:find_outliers"), ("ranges", Z + "smooth.py:generate_points_tosmooth"), ("cubics", Z + "smooth.py:gen_newr")],
    "Independent evaluation of the criterion and the ranges; ends and directions of the cubics to the accuracy of the fit (0.3 % of the range for single corners).",
    "property-based testing: independent criterion, metamorphic relations (rotation, starting point)")
prop(
    "C31", "Fields and tracers backed by services convert coordinates correctly",
    "For every field known to the service and points of any shape, the fields W7X_vacuum_on_demand and FusionSCField give the cylindrical components of the Cartesian field of the service; W7X_vacuum and W7X_VMEC "
    "interpolate it between the points of their grid, periodically in phi, with the plasma field added if requested, and use a saved field only for the same configuration. FieldTracerWeb and FusionSCTracer return the field lines "
    "at each y in both directions, whatever the direction of the field and however many chunks are needed, with the requested step or accuracy for that call only. Configurations are passed as the id or as the coil currents. "
    "A field service which fails once, and tracing which fails less often than allowed, is asked again.",
    ["inputs", "fault_sequences", "histories"], "all fields, points, directions, chunk sizes, configurations and failures of the service",
    "No test can reach the services; the stand-ins answer any generated field and fail on demand.",
    [Z + "field.py", Z + "fieldtracer.py"],
    [("on demand", Z + "field.py:W7X_vacuum._calc_chunk"), ("grid", Z + "field.py:W7X_vacuum.field_values"), ("web tracer", Z + "fieldtracer.py:FieldTracerWeb"), ("fusionsc", Z + "fieldtracer.py:FusionSCTracer")],
    "Stand-ins for osa, requests and fusionsc answer from fields with exact lines; what the real services do beyond their documentation is assumed.",
    "property-based testing: generated stand-in services with injected failures, exact-solution oracle")
prop(
    "C32", "Upscaling in y follows the field lines",
    "For all maps and fields, upscale keeps the slices of the original field and, in between, gives at each grid point the value interpolated linearly between the two ends of the "
    "field line through that point (the last slice continues to the first one), which is exact for fields affine in x and z. It is linear in the field, follows a rotation in y, accepts integer fields and "
    "fields with reversed axes, leaves its inputs alone and rejects fields of another size.",
    ["inputs"], "all maps with small displacements, all fields, factors",
    "There is no test of upscale.",
    [Z + "zoidberg.py"], [("interpolation along and between lines", Z + "zoidberg.py:upscale")],
    "Exact solution for affine fields and displacements away from the edges; metamorphic relations elsewhere.",
    "property-based testing: exact solutions, metamorphic relations")
prop(
    "C33", "Spectral lines are the truncated Fourier series of the points",
    "For every closed line and number of modes, SpectralLine gives at any angle (number or array) the position of the least-squares Fourier series of the points, which are at equal steps of the angle starting from -pi; "
    "cost is half of the sum of the squared remaining distances, and equallySpaced returns the requested number of distinct points of the curve at equal angles.",
    ["inputs"], "all lines, numbers of modes, angles",
    "There is no test of SpectralLine.",
    [Z + "spectralline.py"], [("fit", Z + "spectralline.py:SpectralLine"), ("series", Z + "spectralline.py:_fft")],
    "FFT of the points as the oracle, 1e-5.", "property-based testing: FFT reference model")
prop(
    "C34", "Field lines of EMC3 grids keep their place in the mesh, in every period",
    "For every EMC3 dataset (one or several zones of any size, planes at any angles) and all starting points and angles, EMC3FieldTracer returns the positions of the lines which keep their bilinear coordinates in their cell of the "
    "(field-aligned) mesh: planes are interpolated linearly in between, lines continue at the other end of the period (in the cell found there, in any zone) as often as needed in both directions, and positions just outside of the mesh are "
    "continued with the cells next to them, while those far away are an error. The EMC3 field is in cylindrical coordinates, with the mean over the corners of the cells as strength, continued along x where it is not available.",
    ["inputs", "histories"], "all datasets, starting points and angles; any number of periods",
    "There is no test of EMC3 (xemc3 and eudist are not installed), so stand-ins are needed for everything.",
    [Z + "fieldtracer.py", Z + "field.py"],
    [("tracing", Z + "fieldtracer.py:EMC3FieldTracer"), ("strength", Z + "field.py:EMC3")],
    "Meshes are advected with exactly known affine lines, for which the result is exact for any mesh (3e-5); stand-ins for xemc3 and eudist; deformed meshes next to their ends with the error of the interpolation.",
    "property-based testing: stand-ins for the packages, exact-solution oracle")
prop(
    "C35", "Plots show the positions which they are made from",
    "For all fields, starting points, slices and maps: plot_poincare draws exactly the crossings of the requested planes, each plane in the colour of its legend entry, and any sequence of mouse clicks replaces (left), adds (right) or removes "
    "(middle) the crossings of the line through the clicked position; plot_3d_field_line draws every cycle of every line from the start of the period; plot_forward_map and plot_backward_map draw the points of the neighbouring slice, all end points of "
    "the maps, and mark those beyond the inner and outer boundary; plot_streamlines draws the components of the field at the grid points; an AnimateVectorField shows the vectors of each frame. Inputs are not changed.",
    ["inputs", "histories"], "all fields, starting points, planes, maps; sequences of up to 6 clicks",
    "There is no test of the plots.",
    [Z + "plot.py"],
    [("Poincare plots", Z + "plot.py:plot_poincare"), ("lines", Z + "plot.py:plot_3d_field_line"), ("maps", Z + "plot.py:plot_forward_map")],
    "What was drawn is read back from matplotlib and compared with exact field lines and the maps; clicks are synthetic events (stateful, against a model of the lines shown).",
    "property-based testing: exact-solution oracle, stateful generation of clicks")
prop(
    "C36", "Progress displays show what has been done, and change nothing",
    "For every value, length and character set, update_progress shows the percentage and a bar of the given length filled in proportion; negative values halt, values of 1 and more are done, and anything else is reported as an error. "
    "With quiet=False make_maps and upscale, with tqdm or with the own display, show each stage from 0 to exactly 100 % without going back; the results are the same as with quiet=True, which shows nothing. "
    "Progress shows percentage, elapsed and remaining time (in proportion) at every update and 100 % at the end, without hiding errors; format_time splits every duration into days, hours, minutes and seconds which add up, each below its limit.",
    ["inputs", "histories"], "all values, lengths, durations, histories of updates; all grids and fields",
    "There is no test of the displays, and all tests are quiet.",
    [Z + "progress.py", Z + "zoidberg.py"],
    [("bar", Z + "progress.py:update_progress"), ("time", Z + "progress.py:format_time"), ("elapsed", Z + "progress.py:Progress"), ("stages", Z + "zoidberg.py:make_maps")],
    "What is written to the standard output is parsed; stand-in for tqdm and for the clock.",
    "property-based testing: reference model, differential with the quiet run")
prop(
    "C37", "Curvature, transform and flux surfaces of the grid scripts",
    "For every field and every annular grid which is the same in all slices, calc_curvilinear_curvature adds the contravariant components of curl(b/B) and the Jacobian to the grid file and changes nothing else. calc_iota gives the turns of a line "
    "around its axis for each turn around the torus; get_lines one line for each plane, on the flux surface, at equal distances; smooth_metric keeps polynomials in z up to its order, and only writes what was asked for. screwpinch writes grid "
    "files of any size with surfaces between a/2 and a, on which the field lines stay.",
    ["inputs"], "all fields, grids and sizes; lines which close on flux surfaces",
    "There is no test of the scripts which come with the package.",
    [Z + "examples/common.py", Z + "examples/screwpinch.py"],
    [("curvature", Z + "examples/common.py:calc_curvilinear_curvature"), ("transform", Z + "examples/common.py:calc_iota"), ("surfaces", Z + "examples/common.py:get_lines"), ("grid", Z + "examples/screwpinch.py:screwpinch")],
    "Jacobian from the exact positions of the grid points (2 %); ellipses with exactly known transform. The curvature and smooth_metric fail on the tree (recorded findings with probes, files below examples may not be changed), so that "
    "for those only what holds is checked.",
    "property-based testing: differential oracle (cylindrical coordinates), exact solutions")
prop(
    "C38", "The result of a call does not depend on the calls before it",
    "For every history of calls on the same objects - tracers, RZlines, poloidal grids, grids, boundaries, magnetic fields, and the functions for differences, weights, lines and maps - with the same or with different arguments, each call "
    "gives what it gives as the first call in a new process on a new object: nothing computed by or passed to an earlier call, on the same or on another object of the class, changes a later result. Arrays passed to a call are not changed, "
    "and results returned earlier are not changed by later calls. This holds for errors as well: a rejected call has no effect. (Cache files, grid files being written and counters of "
    "requests exist to keep a history and are the subject of C04, C26, C28 and C31.)",
    ["histories"], "all histories of calls on objects of all kinds, with arguments repeated or changed",
    "The tests make new objects for nearly every call, so that a value remembered for the wrong arguments or an input changed in place is not noticed.",
    [Z + "fieldtracer.py", Z + "rzline.py", Z + "poloidal_grid.py", Z + "grid.py", Z + "boundary.py", Z + "field.py", Z + "zoidberg.py", Z + "weights.py"],
    [("tracers", Z + "fieldtracer.py:FieldTracer"), ("metric of grids", Z + "grid.py:Grid.metric"), ("finding of indices", Z + "poloidal_grid.py:StructuredPoloidalGrid.findIndex"), ("lines", Z + "rzline.py:RZline")],
    "Sequences of calls on shared objects; each is compared (1e-9) with the first call in a forked process which has not called anything before.",
    "property-based testing: stateful generation of calls, differential with a pristine process")
