import numpy as np
import freud
from rt import *
from computes import Frame

TWO = 2 * np.pi


def bonds(t, rng, f):
    args = f.args(rng)
    nl = f.nlist(args)
    ij = np.asarray(nl[:]).reshape(-1, 2)
    return nl, args, ij[:, 0], ij[:, 1], np.asarray(nl.vectors, float).reshape(-1, 3)


def count(t, coords, los, his, ns):
    """histogram of coordinate rows; None when a coordinate is too near to an edge"""
    idx, ok = [], np.ones(len(coords[0]), bool)
    for x, lo, hi, n in zip(coords, los, his, ns):
        y = (x - lo) / (hi - lo) * n
        if len(y) and np.any(np.abs(y - np.round(y)) < 2e-4):
            return None
        k = np.floor(y).astype(int)
        ok &= (k >= 0) & (k < n)
        idx.append(k)
    c = np.zeros(ns, int)
    np.add.at(c, tuple(i[ok] for i in idx), 1)
    return c


def verify(t, o, name, c, jac, frames, V, norm):
    if name == "PMFTXY":
        c = c.squeeze()
        jac = jac.reshape(c.shape)
    t.same(o.bin_counts.astype(int), c, f"{name}: bonds are not counted in the bin of their local coordinates")
    pcf = (c * V / norm / jac)
    got = np.asarray(o._pcf)
    t.close(got, pcf.reshape(got.shape), f"{name}: PCF is not count / (bin volume, density, points, frames)", rtol=1e-3, atol=1e-4)
    with np.errstate(divide="ignore"):
        t.close(np.asarray(o.pmft), -np.log(got), f"{name}: PMFT is not -log(PCF)", rtol=1e-5, atol=1e-6)


def angles(rng, a, name):
    """angles or quaternions about z"""
    if rng.random() < 0.3 and len(a) > 1:
        return f32(np.stack([np.cos(a / 2), 0 * a, 0 * a, np.sin(a / 2)], 1)), True
    return a, False


@contract(130)
def r12(t, rng):
    f = Frame(rng, dim=2)
    nl, args, qi, pi, v = bonds(t, rng, f)
    R = float(np.float32(rng.uniform(0.5, 5)))
    ns = tuple(int(x) for x in rng.integers(1, 7, 3))
    t.inp(**f.desc(), orientations=f.ang, query_orientations=f.qang, r_max=R, bins=ns, neighbors=args)
    o = freud.pmft.PMFTR12(R, ns if rng.random() < 0.8 else ns)
    own = f.q is None and rng.random() < 0.4
    o.compute((f.box, f.p), f.ang, query_points=f.q, query_orientations=None if own else f.qang, neighbors=nl if rng.random() < 0.5 else args)
    qang = (f.ang if own else f.qang).astype(float)
    r = np.linalg.norm(v, axis=1)
    t1 = np.mod(f.ang[pi].astype(float) - np.arctan2(v[:, 1], v[:, 0]), TWO)
    t2 = np.mod(qang[qi] - np.arctan2(-v[:, 1], -v[:, 0]), TWO)
    c = count(t, (r, t1, t2), (0, 0, 0), (R, TWO, TWO), ns)
    if c is None:
        return
    rc = (np.arange(ns[0]) + 0.5) * R / ns[0]
    jac = (rc * (R / ns[0]) * (TWO / ns[1]) / ns[2])[:, None, None] * np.ones(ns)
    verify(t, o, "PMFTR12", c, jac, 1, f.box.volume, f.nq * f.n)


@contract(130)
def xyt(t, rng):
    f = Frame(rng, dim=2)
    nl, args, qi, pi, v = bonds(t, rng, f)
    X, Y = (float(np.float32(x)) for x in rng.uniform(0.5, 5, 2))
    ns = tuple(int(x) for x in rng.integers(1, 7, 3))
    t.inp(**f.desc(), orientations=f.ang, query_orientations=f.qang, bounds=(X, Y), bins=ns, neighbors=args)
    o = freud.pmft.PMFTXYT(X, Y, ns)
    own = f.q is None and rng.random() < 0.4
    o.compute((f.box, f.p), f.ang, query_points=f.q, query_orientations=None if own else f.qang, neighbors=nl if rng.random() < 0.5 else args)
    a = (f.ang if own else f.qang).astype(float)[qi]
    x = v[:, 0] * np.cos(a) + v[:, 1] * np.sin(a)
    y = -v[:, 0] * np.sin(a) + v[:, 1] * np.cos(a)
    th = np.mod(f.ang[pi].astype(float) - np.arctan2(-v[:, 1], -v[:, 0]), TWO)
    c = count(t, (x, y, th), (-X, -Y, 0), (X, Y, TWO), ns)
    if c is None:
        return
    jac = np.full(ns, 2 * X / ns[0] * 2 * Y / ns[1] / ns[2])
    verify(t, o, "PMFTXYT", c, jac, 1, f.box.volume, f.nq * f.n)


@contract(130)
def xy(t, rng):
    f = Frame(rng, dim=2)
    nl, args, qi, pi, v = bonds(t, rng, f)
    X, Y = (float(np.float32(x)) for x in rng.uniform(0.5, 5, 2))
    ns = tuple(int(x) for x in rng.integers(1, 7, 2))
    qa, _ = angles(rng, f.qang, "q")
    t.inp(**f.desc(), query_orientations=qa, bounds=(X, Y), bins=ns, neighbors=args)
    try:
        o = freud.pmft.PMFTXY(X, Y, ns).compute((f.box, f.p), qa, query_points=f.q, neighbors=nl if rng.random() < 0.5 else args)
    except ValueError as e:  # angles beyond [-pi, pi] as quaternions may get the axis -z
        if "z-axis" in str(e):
            return
        raise
    a = f.qang.astype(float)[qi]
    x = v[:, 0] * np.cos(a) + v[:, 1] * np.sin(a)
    y = -v[:, 0] * np.sin(a) + v[:, 1] * np.cos(a)
    c = count(t, (x, y), (-X, -Y), (X, Y), ns)
    if c is None:
        return
    jac = np.full(ns, 2 * X / ns[0] * 2 * Y / ns[1])
    verify(t, o, "PMFTXY", c, jac, 1, f.box.volume, f.nq * f.n)


@contract(130)
def xyz(t, rng):
    f = Frame(rng, dim=3)
    nl, args, qi, pi, v = bonds(t, rng, f)
    X, Y, Z = (float(np.float32(x)) for x in rng.uniform(0.5, 5, 3))
    ns = tuple(int(x) for x in rng.integers(1, 6, 3))
    eq = None if rng.random() < 0.3 else f.equiv
    t.inp(**f.desc(), query_orientations=f.qori, equiv=eq, bounds=(X, Y, Z), bins=ns, neighbors=args)
    o = freud.pmft.PMFTXYZ(X, Y, Z, ns).compute((f.box, f.p), f.qori, query_points=f.q, equiv_orientations=eq, neighbors=nl if rng.random() < 0.5 else args)
    E = np.array([[1, 0, 0, 0]]) if eq is None else eq
    loc = qrot(qconj(f.qori)[qi], v)
    allv = np.concatenate([qrot(np.broadcast_to(e, (len(loc), 4)), loc) for e in E.astype(float)])
    c = count(t, tuple(allv.T), (-X, -Y, -Z), (X, Y, Z), ns)
    if c is None:
        return
    jac = np.full(ns, 8 * X * Y * Z / np.prod(ns))
    verify(t, o, "PMFTXYZ", c, jac, 1, f.box.volume, f.nq * f.n * len(E))


@contract(40)
def xyz_shift(t, rng):
    """shiftvec moves the origin of the local frame by moving the query points"""
    f = Frame(rng, dim=3)
    s = rng.uniform(-0.4, 0.4, 3)
    rm = 0.9 * f.limit
    t.inp(**f.desc(), shiftvec=s, r_max=rm)
    q = f32(wrap(f.box, f.qp().astype(float) - s))
    args = dict(mode="ball", r_max=rm, exclude_ii=f.q is None)
    a = freud.pmft.PMFTXYZ(3, 3, 3, 4, shiftvec=s).compute((f.box, f.p), f.qori, query_points=f32(f.qp()) if f.q is not None else None, neighbors=args)
    nl = freud.locality.AABBQuery(f.box, f.p).query(q, args).toNeighborList()
    d = pair_vectors(f.box, q, f.p)
    if np.min(np.abs(np.linalg.norm(d, axis=2) - rm)) < 1e-4:
        return
    loc = qrot(qconj(f.qori)[np.asarray(nl.query_point_indices)], np.asarray(nl.vectors, float).reshape(-1, 3))
    c = count(t, tuple(loc.T), (-3, -3, -3), (3, 3, 3), (4, 4, 4))
    if c is None:
        return
    t.same(a.bin_counts.astype(int), c, "PMFTXYZ: shiftvec does not move the origin of the local frame")
