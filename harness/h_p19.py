import numpy as np
import freud
from rt import *
from computes import Frame


def group(rng):
    """equivalent orientations: closed under negation, sometimes a real symmetry group"""
    k = rng.integers(0, 4)
    if k == 0:
        g = np.array([[1, 0, 0, 0]])
    elif k == 1:
        g = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
    elif k == 2:
        n = int(rng.integers(2, 7))
        a = np.arange(n) * np.pi / n
        g = np.stack([np.cos(a), 0 * a, 0 * a, np.sin(a)], 1)
    else:
        g = np.concatenate([[[1, 0, 0, 0]], quat_random(rng, int(rng.integers(1, 4)))])
    g = np.concatenate([g, -g])
    return f32(g[rng.permutation(len(g))]), k != 3


def min_angle(q, ref, E):
    """smallest rotation angle of q conj(q0) e conj(ref) over the equivalent orientations e (as documented)"""
    q0 = E[0]
    best = None
    for e in E.astype(float):
        s = qmul(qmul(qmul(q, qconj(q0)), e), qconj(ref))[0]
        a = 2 * np.arccos(np.clip(s, -1, 1))
        best = a if best is None else min(best, a)
    return best


@contract(160)
def neighbor(t, rng):
    f = Frame(rng)
    E, isgroup = group(rng)
    args = f.args(rng)
    nl = f.nlist(args)
    own = f.q is None and rng.random() < 0.4
    qori = f.ori if own else f.qori
    t.inp(**f.desc(), orientations=f.ori, query_orientations=qori, equiv=E, neighbors=args)
    o = freud.environment.AngularSeparationNeighbor().compute((f.box, f.p), f.ori, query_points=f.q, query_orientations=None if own else qori,
                                                              equiv_orientations=E, neighbors=nl if rng.random() < 0.5 else args)
    ol = o.nlist
    t.check(np.array_equal(np.asarray(ol[:]), np.asarray(nl[:])) or len(ol) == len(nl), "bonds of the result", len(ol))
    a = np.asarray(o.angles)
    t.check(a.shape == (len(ol),), "one angle per bond", a.shape)
    exp = np.array([min_angle(f.ori[j].astype(float), qori[i].astype(float), E) for i, j in np.asarray(ol[:]).reshape(-1, 2)])
    t.close(a, exp.reshape(-1), "not the smallest rotation angle over all equivalent orientations", rtol=1e-3, atol=2e-3)
    t.check(len(a) == 0 or (a.min() >= 0 and a.max() <= np.pi + 1e-3), "angle out of [0, pi]", a)


@contract(160)
def glob(t, rng):
    n, g = int(rng.integers(1, 12)), int(rng.integers(1, 6))
    q, G = quat_random(rng, n), quat_random(rng, g)
    E, isgroup = group(rng)
    if rng.random() < 0.5:
        G[0] = q[0]
    t.inp(orientations=q, global_orientations=G, equiv=E)
    o = freud.environment.AngularSeparationGlobal().compute(G, q, E)
    a = np.asarray(o.angles)
    exp = np.array([[min_angle(y.astype(float), x.astype(float), E) for y in G] for x in q])
    t.close(a, exp, "not the smallest rotation angle over all equivalent orientations", rtol=1e-3, atol=2e-3)
    t.check(a.min() >= 0 and a.max() <= np.pi + 1e-3, "angle out of [0, pi]", a)
    # q -> -q; a common rotation
    sg = f32(np.sign(rng.uniform(-1, 1, (n, 1))))
    t.close(freud.environment.AngularSeparationGlobal().compute(G, q * sg, E).angles, a, "not invariant under q -> -q", atol=2e-3)
    if np.array_equal(G[0], q[0]) and np.allclose(np.abs(E @ E[0]).max(), 1):
        t.check(not isgroup or a[0, 0] < 5e-3, "angle between equal orientations is not zero", a[0, 0])
    # a common rotation on the left leaves the angles unchanged
    if isgroup:  # the separation is symmetric for a symmetry group
        t.close(freud.environment.AngularSeparationGlobal().compute(q, G, E).angles, a.T, "not symmetric", atol=4e-3)
    r = quat_random(rng, 1)
    t.close(freud.environment.AngularSeparationGlobal().compute(f32(qmul(r, G)), f32(qmul(r, q)), E).angles, a, "not invariant under a common rotation", atol=4e-3)


@contract(160)
def projection(t, rng):
    f = Frame(rng)
    E, _ = group(rng)
    args = f.args(rng)
    nl = f.nlist(args)
    t.inp(**f.desc(), orientations=f.ori, proj_vecs=f.proj, equiv=E, neighbors=args)
    o = freud.environment.LocalBondProjection().compute((f.box, f.p), f.ori, f.proj, query_points=f.q, equiv_orientations=E, neighbors=nl if rng.random() < 0.5 else args)
    ol = o.nlist
    ij = np.asarray(ol[:]).reshape(-1, 2)
    v = np.asarray(ol.vectors, float).reshape(-1, 3)
    d = np.asarray(ol.distances, float)
    P = np.asarray(o.projections).reshape(len(ij), len(f.proj))
    t.check(len(ij) == len(nl), "bonds of the result", (len(ij), len(nl)))
    pv = f.proj.astype(float)
    if len(ij):
        loc = qrot(qconj(f.ori[ij[:, 1]]), v)
        q0 = qconj(E[0])
        cand = np.stack([qrot(np.broadcast_to(qmul(q0, e), (len(pv), 4)), pv) for e in E.astype(float)])
        raw = np.einsum("bk,epk->bpe", loc, cand).max(2)
        t.close(P, raw, "not the largest projection of the bond over the equivalent vectors", rtol=2e-3, atol=2e-3)
        t.close(np.asarray(o.normed_projections).reshape(P.shape), P / d[:, None], "normed projection is not the projection over the bond length", rtol=1e-4, atol=1e-5)


import computes as _c
contract(40)(_c.reuse_of("AngularSeparationNeighbor"))
contract(40)(_c.reuse_of("AngularSeparationGlobal"))
contract(40)(_c.reuse_of("LocalBondProjection"))
