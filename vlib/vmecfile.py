"""Write VMEC wout files with the variables which are read"""

import numpy as np
from netCDF4 import Dataset


def write_wout(fn, xm, xn, arrays, ns, mpol, ntor, iasym, four_dim_order=True):
    with Dataset(fn, "w") as f:
        f.createDimension("radius", ns)
        f.createDimension("mn_mode", len(xm))

        def scalar(name, v):
            f.createVariable(name, "i4")[...] = v

        scalar("ns", ns)
        scalar("mpol", mpol)
        scalar("ntor", ntor)
        if iasym is not None:
            scalar("iasym", iasym)
        f.createVariable("xm", "f8", ("mn_mode",))[:] = np.asarray(xm, dtype=float)
        f.createVariable("xn", "f8", ("mn_mode",))[:] = np.asarray(xn, dtype=float)
        for k, v in arrays.items():
            f.createVariable(k, "f8", ("radius", "mn_mode"))[:] = v
