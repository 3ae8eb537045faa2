#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.

tools/meta.py: only properties whose check exists are listed in both files.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique=None,
         level="exploration", state=None):
    P.append(locals().copy())


Z = "zoidberg/"

prop(
    "C01", "Field line tracing follows the field lines of the given field",
    "For every magnetic field, set of starting points of any number and shape, and monotonic list of y positions, the positions "
    "returned by the field-line tracer are those of the field line through each starting point at each requested y, within the "
    "integration tolerance, in the shape [y, ...shape of the starting points, (x,z)] with the starting points first. A line does "
    "not depend on which other lines are traced in the same call, on the number of lines, or on tracing being interrupted at an "
    "intermediate y and restarted. Starting points of incompatible shapes are rejected.",
    ["inputs"], "all fields, numbers/shapes of starting points, increasing and decreasing lists of y",
    "test_fieldtracer samples a handful of points in a slab; the chunking of many lines, shapes, reverse tracing and restarts are not reached.",
    [Z + "fieldtracer.py"],
    [("integration in chunks", Z + "fieldtracer.py:FieldTracer.follow_field_lines"), ("right hand side", Z + "field.py:MagneticField.field_direction")],
    "Generated fields with exact solutions (linear, affine and periodic flows), compared at 1e-4 relative; assumes SciPy's integrator honours its tolerances.",
    "property-based testing: exact-solution oracle, metamorphic batching/restart relations")
prop(
    "C02", "The reversible tracer can be undone, and leaves its inputs alone",
    "Tracing with the reversible tracer from a starting point through a list of y positions and back again returns to the starting "
    "point within the solver tolerance, for every field and number of sub-steps. Each result is that of the implicit trapezoidal rule "
    "with the requested number of equal sub-steps between successive y positions, and converges to the true field line with the square "
    "of the step. The caller's arrays are never modified, and invalid lists of y positions or incompatible shapes are rejected.",
    ["inputs"], "all fields, starting points, y lists and numbers of sub-steps",
    "The existing test samples one field and one set of points; aliasing of inputs, sub-step counts and shapes are not covered.",
    [Z + "fieldtracer.py"], [("fixed-point trapezoidal steps", Z + "fieldtracer.py:FieldTracerReversible.follow_field_lines")],
    "Affine fields for which the implicit step is solved exactly by linear algebra; the order of convergence by step halving.",
    "property-based testing: exactly solved model, inverse (round trip) relation")
prop(
    "C03", "Poincare tracing returns all crossings of the requested planes, in order",
    "For every field, any number of starting points, revolutions and planes, the Poincare trace contains for each revolution and each plane "
    "the position of each field line at y = plane + revolution * period, together with the planes in increasing order, whichever way round "
    "the planes were given. Planes outside one period are rejected, and the caller's list of planes is left unchanged.",
    ["inputs"], "all fields, starting points, numbers of revolutions, lists of planes",
    "The tests use one field, one revolution count and sorted planes.",
    [Z + "fieldtracer.py"], [("planes and revolutions", Z + "fieldtracer.py:trace_poincare")],
    "Fields with exact solutions; the planes are generated in any order, with ends and duplicates.",
    "property-based testing: exact-solution oracle")
prop(
    "C04", "A caching tracer never changes a result, whatever happened to the cache before",
    "For every history of tracing requests (positions, y lists, options), new processes, and writes of the cache which were interrupted at any "
    "byte by a crash or an I/O error, a caching tracer returns exactly what the tracer it wraps returns for that request. "
    "A request with different positions, y positions or options is never answered from another request's result, and an identical request "
    "which was completely cached before is answered without tracing again.",
    ["inputs", "histories", "crash_points", "fault_sequences"], "all histories of requests, restarts, crashes and I/O errors while writing",
    "No test uses the caching tracer; collisions need particular pairs of inputs, and incomplete files need a crash at a particular byte.",
    [Z + "fieldtracer.py"], [("cache lookup and atomic write", Z + "fieldtracer.py:CachingFieldTracer")],
    "Stateful histories against the bare tracer as model, with crash points by file size limits (SIGXFSZ or EFBIG) in forked children; a crash loses nothing written before.",
    "property-based testing: stateful model-based histories with injected crashes and I/O errors", level="exploration")
prop(
    "C05", "Field line direction and field strength follow from the components of B",
    "For every magnetic field and every set of points, in both call forms, the direction of the field line is dx/dy = R Bx/By and dz/dy = R Bz/By, "
    "with R the major radius for toroidal geometry and 1 for Cartesian geometry, and the strength is the norm of the three components. "
    "If By vanishes at any of the points the call is rejected rather than giving a direction; small but non-zero By of either sign is accepted.",
    ["inputs"], "all fields, all points, scalars and arrays",
    "Unit tests evaluate single fields at single points; signs of By, zero crossings inside arrays and both call forms are not reached.",
    [Z + "field.py"], [("direction", Z + "field.py:MagneticField.field_direction"), ("strength", Z + "field.py:MagneticField.Bmag")],
    "Randomly composed fields with the formula evaluated independently.",
    "property-based testing: independent formula, metamorphic call-form relation")
prop(
    "C06", "The built-in analytic fields are the fields they document",
    "For all parameters, the slab fields have Bz = Bz0 + (x - xcentre) Bzprime and the documented By, Bx = 0 and Cartesian or toroidal geometry; "
    "the straight stellarator is the curl of the vector potential of four line currents of alternating sign which rotate once per period, plus "
    "constant By; the screw pinch has field lines on circles about its centre with the documented shear. "
    "Two field objects never influence each other.",
    ["inputs", "configurations"], "all parameters of the built-in fields and all points",
    "test_field checks one slab and one screw pinch at a few points.",
    [Z + "field.py"], [("fields", Z + "field.py:Slab, CurvedSlab, StraightStellarator, Screwpinch")],
    "Independent implementation of the documented formulae (Biot-Savart for the currents), periodicity and differences.",
    "property-based testing: reference model")
prop(
    "C07", "Dommaschk potential fields are vacuum fields with the requested harmonics",
    "For every set of harmonic coefficients and every point of the torus, the Dommaschk field is divergence free and curl free, and on the cylinder "
    "of the major radius it takes the values which define the harmonics, scaled with the field on axis. The approximate flux-surface function is invariant "
    "along the field up to second order in the amplitudes of the harmonics.",
    ["inputs", "configurations"], "all coefficient arrays, major radii, field strengths, points",
    "The volume test uses one coefficient set as a geometry and never checks the field itself.",
    [Z + "field.py"], [("symbolic potential", Z + "field.py:DommaschkPotentials")],
    "Divergence and curl by central differences of the real code; values on the defining cylinder; mode numbers up to 3-4.",
    "property-based testing: differential invariants of generated fields")
prop(
    "C08", "Equilibria from g-files",
    "For every well-formed g-file, with any and different numbers of points in R and Z and with or without a limiter, the field read from it has "
    "flux psi(R,Z) and pressure as tabulated, Bx = -(1/R) dpsi/dZ, Bz = (1/R) dpsi/dR, By = f/R inside the last closed surface (and its edge value outside), and the "
    "limiter polygon as boundary. Files read one after the other in one process do not influence each other.",
    ["inputs", "configurations"], "all equilibria, resolutions, limiters",
    "No test reads a g-file.",
    [Z + "field.py", Z + "boundary.py"], [("splines of psi, f and pressure", Z + "field.py:GEQDSK")],
    "g-files of polynomial equilibria written by the check's own writer in the documented format; oracle is the polynomial.",
    "property-based testing: generated files, reference model")
prop(
    "C09", "Equilibria from VMEC files",
    "For every VMEC equilibrium file, with and without stellarator symmetry, the cylindrical field components at any point inside the last surface "
    "and at any toroidal angle, also several turns away, are those given by the Fourier coefficients in the file, within the resolution of the "
    "interpolation grid. Handedness, the sign of the toroidal angle, and the first and last flux surface are treated correctly. Far outside the field is (0, 1, 0).",
    ["inputs", "configurations"], "all Fourier coefficient sets, numbers of surfaces and field periods, points",
    "No test reads a VMEC file.",
    [Z + "field.py"], [("Fourier sums and interpolation", Z + "field.py:VMEC")],
    "Files generated with known coefficients; the oracle inverts R,Z(s,u,v) directly.",
    "property-based testing: generated files, reference model")
prop(
    "C10", "Boundaries decide correctly whether a point is outside",
    "For every simple closed polygon, given in either direction, and every point not on its edges, the polygon boundary reports the point as outside exactly if it is. "
    "This includes points level with vertices and polygons with vertical or steep edges, for any shape of the arrays of points; rectangular boundaries report outside exactly "
    "for points beyond their limits.",
    ["inputs"], "all simple polygons, all points and array shapes",
    "No test covers the polygon; errors need points aligned with vertices.",
    [Z + "boundary.py"], [("ray crossing", Z + "boundary.py:PolygonBoundaryXZ.outside"), ("box", Z + "boundary.py:RectangularBoundaryXZ.outside")],
    "Exact rational arithmetic as oracle, points placed on a lattice shared with the vertices.",
    "property-based testing: exact-arithmetic reference model")
prop(
    "C11", "Rectangular poloidal grids: position and index are inverse, metric is exact",
    "For every size, position and resolution of a rectangular poloidal grid, the nodes are equally spaced with the cell convention documented for x and z, the position of a "
    "fractional index is linear in the index, and the index of a position gives back that position, with positions outside in x marked as below or above the grid. "
    "Derivatives of the position of any order, and the metric with its spacings, are those of the linear mapping.",
    ["inputs", "configurations"], "all sizes, offsets, resolutions, indices and positions",
    "test_poloidal_grid checks one grid and one point.",
    [Z + "poloidal_grid.py"], [("linear mapping", Z + "poloidal_grid.py:RectangularPoloidalGrid")],
    "Closed-form oracle.", "property-based testing: closed-form oracle, inverse relation")
prop(
    "C12", "Curvilinear poloidal grids: position and index are inverse to each other",
    "On every curvilinear poloidal grid, the position of integer indices are the nodes given, for any number of turns in the periodic z direction; between nodes the positions "
    "follow the smooth mapping, including across the seam in z. The index found for a position inside the grid gives back that position, and positions beyond the inner or outer boundary are "
    "marked as such (-1 or nx); grids with the wrong handedness are rejected.",
    ["inputs", "configurations"], "all annular grids (shapes, offsets, resolutions) and positions at least one cell inside",
    "test_zoidberg maps points of a single grid.",
    [Z + "poloidal_grid.py"], [("splines and Newton iteration", Z + "poloidal_grid.py:StructuredPoloidalGrid")],
    "Analytic annular mappings as oracle; points next to the boundary are judged only by the inverse relation.",
    "property-based testing: analytic mapping oracle, inverse relation")
prop(
    "C13", "The metric of curvilinear poloidal grids",
    "For every curvilinear poloidal grid the metric tensor is positive definite, the contravariant tensor is its inverse, and both together with dx and dz agree with the products of the "
    "tangent vectors of the coordinate lines of the grid; both coordinates run from 0 to 1, i.e. dx = 1 / nx and dz = 1 / nz. Moving, rotating or mirroring the grid changes nothing, scaling scales the physical lengths, and renumbering z rolls the result.",
    ["inputs", "configurations"], "all annular grids",
    "Only one metric of one grid is looked at in existing tests.",
    [Z + "poloidal_grid.py"], [("metric", Z + "poloidal_grid.py:StructuredPoloidalGrid.metric")],
    "Analytic mapping and metamorphic relations.", "property-based testing: analytic oracle, metamorphic relations")
prop(
    "C14", "Grids generated between an inner and an outer line fill the space between them",
    "For every pair of nested lines and all options of the generators, the first and last surface of the grid lie on the inner and outer line, with their points in order once around; additional surfaces requested beyond them continue in straight lines at equal distances, "
    "the surfaces between solve the elliptic equations to the requested tolerance, and the requested alignment, orthogonality and limits on the spacing hold. The cells do not fold for aligned lines without strong shaping, and between concentric circles the surfaces are circles with increasing radius. "
    "Too few points are rejected, and the given lines are not modified.",
    ["inputs", "configurations"], "all pairs of nested lines and generator options",
    "Existing tests build a few grids and look at the result's size only.",
    [Z + "poloidal_grid.py"], [("generators", Z + "poloidal_grid.py:grid_annulus, grid_elliptic")],
    "Distance of the end surfaces from the lines measured independently; folding judged by cell orientation.",
    "property-based testing: invariants and reference model of the generated grids")
prop(
    "C15", "Three-dimensional grids: slices, y positions, cell edges and metric",
    "For every grid, periodic or not, and every integer or fractional index in y, also outside the domain, the slice and y position returned are those of the documented periodicity: a whole turn adds the length "
    "of the domain, beyond the end of a non-periodic domain there is no slice, and y increases with the index. The metric holds each slice's own metric in its place, dy from the "
    "distances to the neighbouring slices and the geometry of the y direction; rectangular grids have the requested size in every direction. Mismatched numbers of slices and y coordinates are rejected.",
    ["inputs", "configurations"], "all numbers and positions of slices, periodicities, indices",
    "test_grid checks one grid with shared slices.",
    [Z + "grid.py"], [("getPoloidalGrid, metric", Z + "grid.py:Grid"), ("rectangular_grid", Z + "grid.py:rectangular_grid")],
    "Closed-form model of periodic and bounded domains.", "property-based testing: reference model")
prop(
    "C16", "Closed lines pass through their points, whatever their direction or start",
    "Every closed line passes through its points at equally spaced angles in the documented direction, is periodic, and its derivatives are those of its positions. The length along the line is that of its curve, "
    "equally spaced points lie on the same line at equal distances starting from the same point, and the closest point found for a position next to the line is the closest one. "
    "The documented shapes (circle, shaped line) have their documented geometry; malformed coordinates are rejected.",
    ["inputs"], "all point sets, directions, starting points, spline orders",
    "test_rzline checks a circle.",
    [Z + "rzline.py"], [("splines", Z + "rzline.py:RZline"), ("shapes", Z + "rzline.py:circle, shaped_line")],
    "Dense sampling and independent arc length integration; shapes by closed form.",
    "property-based testing: reference model, metamorphic relations")
prop(
    "C17", "Lines through unordered points keep every point once and restore the order",
    "For all points of a smooth closed curve in any order, each method to form a line from them returns them in the order along the curve. For any points at all, no point is lost, moved or doubled by the methods which use all points, "
    "and the line optimised by swapping is not longer than the line it starts from; options of the line are passed on.",
    ["inputs"], "all sets of points and orders",
    "test_rzline uses one ordered square.",
    [Z + "rzline.py"], [("ordering", Z + "rzline.py:line_from_points*")],
    "Shuffled samples of known curves; exhaustive point accounting.", "property-based testing: permutation invariants, known order")
prop(
    "C18", "Maps: where the field line through each cell meets the neighbouring slices",
    "For every grid, field and number of slices, the forward and backward maps of each cell hold the position (R,Z) of the field line at the n-th neighbouring slice, and its fractional indices in that slice's own grid, "
    "for every n up to the requested number, under the documented names. Cells whose field line leaves the domain, or which map beyond the last slice of a non-periodic grid, are marked as leaving (negative or beyond-last index in x); "
    "straight field lines map every cell onto itself.",
    ["inputs", "configurations"], "all grids (rectangular, curvilinear, differing slices), fields, boundaries, y grids",
    "test_zoidberg uses a few grids of equal slices and constant fields.",
    [Z + "zoidberg.py"], [("make_maps", Z + "zoidberg.py:make_maps"), ("parallel slices", Z + "zoidberg.py:ParallelSlice")],
    "Stand-in tracer with exact field lines and closed-form indices (rectangular) or analytic inverse (curvilinear).",
    "property-based testing: exact-solution oracle")
prop(
    "C19", "Maps with several samples per cell cover the whole cell by quadrature",
    "For every grid, field, number of slices and number n of samples per direction, the sampled maps hold for each cell and each requested slice the mapped indices of the n*n points of the Gauss-Legendre quadrature over the cell (half a cell to each side of its centre in both indices, also across the seam in z), "
    "with quadrature weights which add up to one. Samples which leave the domain are marked as such individually, and all other maps are the same as without sampling.",
    ["inputs", "configurations"], "all grids, fields, sample counts and slices",
    "test_zoidberg only checks that sampling runs.",
    [Z + "zoidberg.py"], [("sampling", Z + "zoidberg.py:make_maps")],
    "Closed-form indices of every sample.", "property-based testing: exact-solution oracle")
prop(
    "C20", "Cell volumes, field-line lengths and field values along the field",
    "For every grid and field in cylindrical geometry, the maps hold for each cell the length of the field line across the cell and across the half-shifted cells at its lower and upper end in y, the value of By at the cell and at both of these ends, "
    "and a volume factor which is that of the flux tube through the cell (poloidal cell area times the integral of R By(cell)/By along the field line across the cell, divided by the cell's extent in y). "
    "For a purely toroidal field the total volume and the lengths are those of the torus.",
    ["inputs", "configurations"], "all toroidal grids and fields, periodic or not",
    "test_volume_* check the sum of volumes of two configurations.",
    [Z + "zoidberg.py"], [("lengths and volumes", Z + "zoidberg.py:make_maps"), ("line integrals", Z + "fieldtracer.py")],
    "Independent quadrature along exact field lines; one recorded finding (Cartesian geometry).",
    "property-based testing: quadrature reference model")
prop(
    "C21", "Every cell and every parallel leg has exactly one number in the operators",
    "For every set of maps, with any pattern of cells whose forward or backward field line hits a boundary, with all or some of its samples, the evolving cells are numbered first, then the inner and the outer boundary cells in x, then one boundary cell for each cell and direction which hits, without gaps or duplicates. "
    "Each evolving cell has in each direction one leg to other cells unless all samples hit, one leg to its boundary cell if any hits, numbered without gaps, whose weights are the fractions of the samples and add up to one. "
    "The maps given are not modified, and inconsistent sample weights or missing maps are rejected.",
    ["inputs"], "all maps with any pattern of boundary hits",
    "No test looks at the numbering.",
    [Z + "weights.py"], [("numbering", Z + "weights.py:calculate_parallel_map_operators")],
    "Independent re-derivation from the documentation of the operators.", "property-based testing: reference model")
prop(
    "C22", "The parallel interpolation operators apply the maps they were computed from",
    "For every set of maps, each row of the forward and backward operators interpolates a function at the mapped position of the cell with the local Hermite stencil, periodic in z and limited at the ends of x, averaged over the samples of the cell. "
    "The weights of every row add up to one, quadratic functions are interpolated exactly away from the ends, and whole turns in z or a common roll in z change nothing but the numbering.",
    ["inputs"], "all maps, including negative and multi-turn z indices",
    "test_zoidberg checks that the operator exists.",
    [Z + "weights.py"], [("stencil weights", Z + "weights.py")],
    "Dense model of the operators; polynomial exactness.", "property-based testing: dense reference model, metamorphic relations")

# --- further properties are appended in the same way
MORE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")
if os.path.exists(MORE):
    exec(open(MORE).read())

NOT_APPLICABLE = [
]


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
    na = {n["property"] for n in NOT_APPLICABLE}
    listed = have + [p for p in P if p["id"] in na]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in listed:
            assert len(p["title"]) <= 80, p["title"]
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                },
            }
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in have:
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"python3 run.py --property {p['id']} --tier quick",
                "thorough_cmd": f"python3 run.py --property {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["level_note"],
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "Written by tools/meta.py. No hooks in /repo. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
