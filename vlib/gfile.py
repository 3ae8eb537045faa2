"""Write EFIT g-files (independently of the reader)"""

import numpy as np


def write_g(
    fn, psi, rleft, rdim, zmid, zdim, axis, psi_axis, psi_bndry, fpol, pres, bdry, lim
):
    """psi[iR, iZ]; bdry and lim are lists of (R, Z)"""
    nw, nh = psi.shape
    with open(fn, "w") as f:
        f.write("  EFITD   01/01/2000    #000001  0           %4d%4d%4d\n" % (3, nw, nh))

        def out(a):
            a = list(np.ravel(np.asarray(a, dtype=float)))
            for i in range(0, len(a), 5):
                f.write("".join("%16.9E" % v for v in a[i : i + 5]) + "\n")

        out([rdim, zdim, rleft + rdim / 2, rleft, zmid])
        out([axis[0], axis[1], psi_axis, psi_bndry, 2.0])
        out([1e6, psi_axis, 0, axis[0], 0])
        out([axis[1], 0, psi_bndry, 0, 0])
        out(fpol)
        out(pres)
        out(np.zeros(nw))
        out(np.zeros(nw))
        # R is the fastest index
        out(psi.T)
        out(np.ones(nw))
        f.write("%5d%5d\n" % (len(bdry), len(lim)))
        out(bdry)
        out(lim)
