"""Stand-ins for eudist (cells of a mesh) and xemc3 (accessor of EMC3 datasets), which are not installed

``install`` makes them available, and has zoidberg look for them again.
"""

import importlib
import sys
import types

import numpy as np


class PolyMesh:
    """Quadrilateral mesh; the cell (i, j) has the number i * (nz - 1) + j"""

    def __init__(self, *args):
        if args:
            self.r, self.z = args
            self.grid = np.array(args).transpose(1, 2, 0)

    def find_cell(self, rz, guess=-1):
        """Number of the cell with this point, or -1"""
        g = self.grid
        corners = [g[:-1, :-1], g[:-1, 1:], g[1:, 1:], g[1:, :-1]]
        crosses = []
        for a, b in zip(corners, corners[1:] + corners[:1]):
            e, d = b - a, rz - a
            crosses.append(e[..., 0] * d[..., 1] - e[..., 1] * d[..., 0])
        c = np.array(crosses)
        inside = np.all(c >= 0, axis=0) | np.all(c <= 0, axis=0)
        if not np.any(inside):
            return -1
        if 0 <= guess < inside.size and inside.flat[guess]:
            return guess
        return int(np.argmax(inside))


class Accessor:
    """What zoidberg uses of xemc3's accessor"""

    def __init__(self, ds):
        self.ds = ds

    def isel(self, **kw):
        ds = self.ds
        for k, v in kw.items():
            if k == "zone":
                if "zone" in ds.dims:
                    ds = ds.isel(zone=v)
                    # Zones can have different sizes
                    cut = {}
                    for n in ds:
                        if n.startswith("_") and n.endswith("_dims"):
                            cut[n[1:-5]] = slice(int(ds[n]))
                    ds = ds.isel(**cut)
            elif k == "phi":
                # Index of the plane
                assert 0 <= v
                ds = ds.isel(phi=v, delta_phi=0)
            else:
                raise NotImplementedError(k)
        return ds

    def sel(self, phi):
        """Linear in the angle between the planes"""
        phi = float(phi)
        b = self.ds["phi_bounds"].values
        (ok,) = np.nonzero((b[:, 0] - 1e-12 <= phi) & (phi <= b[:, 1] + 1e-12))
        if len(ok) == 0:
            raise KeyError(f"phi={phi} is not in the domain {b[0, 0]} to {b[-1, -1]}")
        i = int(ok[0])
        t = (phi - b[i, 0]) / (b[i, 1] - b[i, 0])
        ds = self.ds.isel(phi=i)
        return ds.isel(delta_phi=0) * (1 - t) + ds.isel(delta_phi=1) * t

    def __getitem__(self, key):
        if not key.endswith("_corners"):
            return self.ds[key]
        import xarray as xr

        v = self.ds[key.replace("_corners", "_bounds")]
        v = v.transpose("r", "theta", "delta_r", "delta_theta")
        a = v.values
        nr, nt = a.shape[:2]
        out = np.empty((nr + 1, nt + 1))
        out[:-1, :-1] = a[..., 0, 0]
        out[-1, :-1] = a[-1, :, 1, 0]
        out[:-1, -1] = a[:, -1, 0, 1]
        out[-1, -1] = a[-1, -1, 1, 1]
        return xr.DataArray(out, dims=("r_plus1", "theta_plus1"))

    def evaluate_at_rpz(self, r, phi, z, key, delta_phi=None):
        """The values of the nearest cell centre, from a function stored with the dataset"""
        import xarray as xr

        r, phi, z = np.broadcast_arrays(r, phi, z)
        f = self.ds.attrs["evaluate"]
        dims = [f"dim_{i}" for i in range(r.ndim)]
        return xr.Dataset({key: (dims, f(key, r, phi, z))})


def install():
    import xarray as xr

    if "eudist" not in sys.modules:
        mod = types.ModuleType("eudist")
        mod.PolyMesh = PolyMesh
        sys.modules["eudist"] = mod
        # The classes depend on whether eudist can be imported
        if "zoidberg.fieldtracer" in sys.modules:
            importlib.reload(sys.modules["zoidberg.fieldtracer"])
    if not hasattr(xr.Dataset, "emc3"):
        xr.register_dataset_accessor("emc3")(Accessor)


def bounds(corners):
    """(nr+1, nt+1, np+1) corners to (nr, nt, np, 2, 2, 2)"""
    c = corners
    out = np.empty(tuple(n - 1 for n in c.shape) + (2, 2, 2))
    for i in range(2):
        for j in range(2):
            for k in range(2):
                out[..., i, j, k] = c[
                    i : c.shape[0] - 1 + i, j : c.shape[1] - 1 + j, k : c.shape[2] - 1 + k
                ]
    return out


def dataset(zones, phis, zone_dim=True, extra=None):
    """EMC3 dataset of zones [(R, z)] with corners (nr+1, nt+1, np+1)"""
    import xarray as xr

    dims = ("r", "theta", "phi", "delta_r", "delta_theta", "delta_phi")
    phib = np.stack([phis[:-1], phis[1:]], -1)
    if not zone_dim:
        assert len(zones) == 1
        ds = xr.Dataset(
            {
                "R_bounds": (dims, bounds(zones[0][0])),
                "z_bounds": (dims, bounds(zones[0][1])),
                "phi_bounds": (("phi", "delta_phi"), phib),
            }
        )
        if extra is not None:
            ds["bf_bounds"] = (dims, extra)
        return ds
    nr = [z[0].shape[0] - 1 for z in zones]
    nt = [z[0].shape[1] - 1 for z in zones]
    full = (len(zones), max(nr), max(nt), len(phis) - 1, 2, 2, 2)
    R, Z = np.full(full, np.nan), np.full(full, np.nan)
    for i, (r, z) in enumerate(zones):
        R[i, : nr[i], : nt[i]] = bounds(r)
        Z[i, : nr[i], : nt[i]] = bounds(z)
    return xr.Dataset(
        {
            "R_bounds": (("zone",) + dims, R),
            "z_bounds": (("zone",) + dims, Z),
            "phi_bounds": (("zone", "phi", "delta_phi"), np.stack([phib] * len(zones))),
            "_r_dims": (("zone",), nr),
            "_theta_dims": (("zone",), nt),
        }
    )
