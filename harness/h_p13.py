import numpy as np
import freud
from rt import *


def setup(rng):
    two = bool(rng.random() < 0.5)
    Ls = rng.uniform(2, 8, 3)
    b = freud.box.Box(Ls[0], Ls[1], 0 if two else Ls[2], is2D=two)
    per = [True] * 3
    if rng.random() < 0.25:
        per = [bool(x) for x in rng.random(3) < 0.6]
        b.periodic = per
    n = int(rng.integers(1, 5))
    p = random_points(b, rng, n, margin=1e-3)
    if rng.random() < 0.2:  # at cell corners and centres
        p[0, :2] = 0
    w = [int(x) for x in rng.integers(1, 9, 3)]
    if rng.random() < 0.4:
        w = [w[0]] * 3
        width = w[0]
    elif two:
        width = (w[0], w[1])
        w[2] = 1
    else:
        width = tuple(w)
    if two:
        w[2] = 1
    r = float(np.float32(rng.choice([rng.uniform(0.05, 0.5), rng.uniform(0.5, 1.3)]) * min(b.L[:2] if two else b.L)))
    return b, p, width, w, r, two


def dist(b, p, w, two):
    """minimum-image distance of every cell centre to every point (n, w...)"""
    g = [(np.arange(k) + 0.5) / k - 0.5 for k in w]
    if two:
        g[2] = np.zeros(1)
    c = np.stack(np.meshgrid(*g, indexing="ij"), -1).reshape(-1, 3) * np.array([b.Lx, b.Ly, b.Lz])
    d = c[None] - p[:, None].astype(float)
    v = wrap(b, d.reshape(-1, 3)).reshape(d.shape)
    return np.linalg.norm(v, axis=2)


@contract(250)
def gaussian(t, rng):
    b, p, width, w, r, two = setup(rng)
    s = float(np.float32(rng.uniform(0.3, 1.0)))
    val = f32(rng.uniform(-2, 2, len(p))) if rng.random() < 0.6 else None
    t.inp(box=box_dict(b), points=p, width=width, r_max=r, sigma=s, values=val)
    d = dist(b, p, w, two)
    if np.min(np.abs(d - r)) < 1e-5:
        return
    v = np.ones(len(p)) if val is None else val
    g = (v[:, None] * np.exp(-d ** 2 / (2 * s * s)) / (2 * np.pi * s * s) ** (1 if two else 1.5) * (d < r)).sum(0)
    o = freud.density.GaussianDensity(width, r, s).compute((b, p), val)
    t.check(tuple(o.width)[:2] == tuple(w[:2]) and o.box == b, "width or box of the result", (o.width, o.box))
    t.close(o.density, g.reshape(w[:2] if two else w), "density is not the sum of the points' Gaussians within r_max", rtol=1e-3, atol=1e-5)


@contract(250)
def voxels(t, rng):
    b, p, width, w, r, two = setup(rng)
    t.inp(box=box_dict(b), points=p, width=width, r_max=r)
    d = dist(b, p, w, two)
    if np.min(np.abs(d - r)) < 1e-5:
        return
    o = freud.density.SphereVoxelization(width, r).compute((b, p))
    t.same(np.asarray(o.voxels).astype(int), (d < r).any(0).reshape(w[:2] if two else w).astype(int), "voxels are not exactly the cells within r_max of a point")


@contract(20)
def recompute(t, rng):
    """a second compute forgets the first"""
    b, p, width, w, r, two = setup(rng)
    q = random_points(b, rng, 3)
    t.inp(box=box_dict(b), points=p, second=q, width=width, r_max=r)
    for mk in (lambda: freud.density.GaussianDensity(width, r, 0.5), lambda: freud.density.SphereVoxelization(width, r)):
        o, g = mk(), mk()
        o.compute((b, p))
        o.compute((b, q))
        g.compute((b, q))
        get = lambda x: x.density if hasattr(x, "sigma") else x.voxels
        t.close(get(o), get(g), "a second compute differs from a fresh object", rtol=1e-6, atol=1e-7)


import computes as _c
contract(40)(_c.reuse_of("GaussianDensity"))
contract(40)(_c.reuse_of("SphereVoxelization"))
