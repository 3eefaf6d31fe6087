import numpy as np
import freud
from rt import *
from computes import Frame


@contract(250)
def overlap_weight(t, rng):
    f = Frame(rng)
    R = float(np.float32(rng.uniform(0.3, 0.8) * f.limit))
    D = float(np.float32(rng.choice([0.0, 0.2, 0.6, 1.2]) * R))
    nbs = rng.random()
    if nbs < 0.4:
        args, nb = dict(mode="ball", r_max=R + 0.5 * D, exclude_ii=f.q is None), None
        if args["r_max"] > 0.99 * f.limit:
            return
    elif nbs < 0.7:
        args = dict(mode="ball", r_max=0.97 * f.limit, exclude_ii=f.q is None)
        nb = args
    else:
        args = f.args(rng)
        nb = args
    nl = f.nlist(args)
    if nb is not None and rng.random() < 0.5:
        nb = nl
    t.inp(**f.desc(), r_max=R, diameter=D, neighbors=args)
    o = freud.density.LocalDensity(R, D).compute((f.box, f.p), query_points=f.q, neighbors=nb)
    d = np.asarray(nl.distances, float)
    i = np.asarray(nl[:]).reshape(-1, 2)[:, 0]
    w = np.where(d < R - D / 2, 1.0, 0.0)
    if D > 0:
        part = (d >= R - D / 2) & (d < R + D / 2)
        w = np.where(part, 1 + (R - (d + D / 2)) / D, w)
    exp = np.zeros(f.nq)
    np.add.at(exp, i, w)
    tol = 1e-4
    if D == 0 and np.any(np.abs(d - R) < 1e-5):
        return
    t.close(o.num_neighbors, exp, "num_neighbors is not the sum of the overlap weights", rtol=tol, atol=1e-3 if D else 1e-5)
    size = np.pi * R * R if f.box.is2D else 4 / 3 * np.pi * R ** 3
    t.close(o.density, np.asarray(o.num_neighbors, float) / size, "density is not num_neighbors over the size of the r_max ball", rtol=1e-4, atol=1e-6)
    t.check(np.asarray(o.num_neighbors).min() >= -1e-4, "negative number of neighbours")


import computes as _c
contract(40)(_c.reuse_of("LocalDensity"))
