"""P21: hexatic, rotational autocorrelation and cubatic order parameters."""
import numpy as np
import freud
from rt import *
from computes import Frame, nl_fields

D3 = np.eye(3)
R4 = 2 / 5 * (np.einsum("ij,kl->ijkl", D3, D3) + np.einsum("ik,jl->ijkl", D3, D3) + np.einsum("il,jk->ijkl", D3, D3))


@contract(160)
def hexatic(t, rng):
    f = Frame(rng, dim=2, same=True)
    k = int(rng.integers(0, 10))
    w = bool(rng.random() < 0.5)
    nl = f.nlist(f.args(rng))
    wt = f32(rng.uniform(0.1, 3, len(nl)))
    g = nl_fields(nl)
    shift = rng.integers(-1, 2, (f.n, 3)) if rng.random() < 0.3 else np.zeros((f.n, 3))
    shift[:, 2] = 0
    p = f32(f.p + unfrac(f.box, shift))
    nl = freud.locality.NeighborList.from_arrays(f.n, f.n, g["idx"][:, 0], g["idx"][:, 1], g["vectors"].reshape(-1, 3), wt)
    t.inp(**f.desc(), k=k, weighted=w, weights=wt, bonds=g["idx"], positions=p)
    o = freud.order.Hexatic(k, w).compute((f.box, p), neighbors=nl)
    psi = np.zeros(f.n, complex)
    tot = np.zeros(f.n)
    i, j = g["idx"].astype(int).T
    v = pair_vectors(f.box, f.p, f.p)[i, j]
    fr = frac(f.box, v)[:, :2]
    W = wt if w else np.ones(len(i))
    np.add.at(psi, i, W * np.exp(1j * k * np.arctan2(v[:, 1], v[:, 0])))
    np.add.at(tot, i, W)
    ok = tot > 0
    edge = np.zeros(f.n, bool)
    edge[i[(np.abs(np.abs(fr) - 0.5) < 1e-3).any(1) | (np.linalg.norm(v, axis=1) < 0.05)]] = True
    ok &= ~edge
    t.close(np.array(o.particle_order)[ok], psi[ok] / tot[ok], "particle_order is not the weighted mean of exp(i k theta)", rtol=1e-3, atol=1e-3)


@contract(20)
def hexatic_defaults(t, rng):
    f = Frame(rng, dim=2, same=True, n=30)
    k = int(rng.integers(3, 8))
    t.inp(**f.desc(), k=k)
    a = freud.order.Hexatic(k).compute((f.box, f.p)).particle_order
    b = freud.order.Hexatic(k).compute((f.box, f.p), neighbors=f.nlist(dict(mode="nearest", num_neighbors=k, exclude_ii=True))).particle_order
    t.close(a, b, "default neighbours are not the k nearest", atol=1e-3)
    c = freud.box.Box.cube(5)
    t.raises(lambda: freud.order.Hexatic(k).compute((c, random_points(c, rng, 20)), neighbors=dict(num_neighbors=2)), "a 3D box is accepted")


def cheb(l, s):
    """sin((l+1) x) / ((l+1) sin x) with cos x = s (stable recurrence)"""
    a, b = np.ones_like(s), 2 * s
    for _ in range(l):
        a, b = b, 2 * s * b - a
    return a / (l + 1)


@contract(120)
def rotational_autocorrelation(t, rng):
    l = 2 * int(rng.integers(0, 7))
    n = int(rng.integers(1, 12))
    a, b = quat_random(rng, n), quat_random(rng, n)
    if rng.random() < 0.3:
        b[: n // 2] = a[: n // 2]
    t.inp(l=l, ref=a, orientations=b)
    o = freud.order.RotationalAutocorrelation(l).compute(a, b)
    s = qmul(qconj(a), b)[:, 0]
    want = cheb(l, s)
    got = np.array(o.particle_order)
    tol = 2e-3 if l < 9 else 2e-2
    t.close(got.real, want, "real part is not the normalised character of the rotation", atol=tol)
    t.close(got.imag, np.zeros(n), "imaginary part is not zero", atol=tol)
    t.close(o.order, got.real.mean(), "order is not the mean", atol=1e-4)
    o.compute(a, a)
    t.close(np.array(o.particle_order), np.ones(n), "not 1 for unchanged orientations", atol=tol)
    c = quat_random(rng, 1)
    o.compute(f32(qmul(c, a)), f32(qmul(c, b)))
    t.close(o.particle_order, got, "changes under a common rotation", atol=2 * tol)


@contract(60)
def cubatic(t, rng):
    n = int(rng.integers(1, 20))
    seed = int(rng.integers(0, 1 << 20))
    reps = int(rng.integers(1, 6))
    q = quat_random(rng, n)
    if rng.random() < 0.4:
        q[:] = q[0]
    t.inp(seed=seed, replicates=reps, orientations=q)
    mk = lambda: freud.order.Cubatic(float(2.0), 0.05, 0.8, reps, seed)
    o = mk().compute(q)
    ax = np.stack([qrot(q, np.tile(e, (n, 1))) for e in D3])
    quart = 2 * np.einsum("ani,anj,ank,anl->nijkl", ax, ax, ax, ax)
    glob = quart.mean(0) - R4
    t.close(o.global_tensor, glob, "global tensor is not the mean quartic tensor minus the isotropic one", atol=1e-4)
    oq = np.array(o.orientation, float)
    a1 = np.stack([qrot(oq, e) for e in D3])
    M = 2 * np.einsum("ai,aj,ak,al->ijkl", a1, a1, a1, a1) - R4
    t.close(o.cubatic_tensor, M, "cubatic tensor is not that of the returned orientation", atol=1e-3)
    C = np.array(o.cubatic_tensor, float)
    t.close(o.order, 1 - ((np.array(o.global_tensor, float) - C) ** 2).sum() / (C ** 2).sum(), "order does not follow from the returned tensors", atol=1e-3)
    part = quart - R4
    want = 1 - ((part - glob) ** 2).sum((1, 2, 3, 4)) / (part ** 2).sum((1, 2, 3, 4))
    t.close(o.particle_order, want, "particle order is not the order parameter along the particle's own axes", atol=2e-3)
    r = mk().compute(q)
    for k in ("order", "particle_order", "global_tensor", "cubatic_tensor", "orientation"):
        t.same(np.array(getattr(r, k)), np.array(getattr(o, k)), "not reproducible for a seed: " + k)
    # the best replicate is returned: fewer replicates never do better
    if reps > 1:
        t.check(freud.order.Cubatic(2.0, 0.05, 0.8, 1, seed).compute(q).order <= o.order + 1e-6, "the best replicate is not returned")


import computes as _c
contract(40)(_c.reuse_of("Hexatic"))
contract(40)(_c.reuse_of("RotationalAutocorrelation"))
contract(40)(_c.reuse_of("Cubatic"))
