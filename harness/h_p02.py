import numpy as np
import freud
from rt import *


def rbox(rng):
    b = random_box(freud, rng, L=(0.8, 25.0))
    if rng.random() < 0.4:
        b.periodic = [bool(x) for x in rng.random(3) < 0.6]
    return b


def safe(b, d, margin=2e-3):
    """separations not within rounding of a wrap boundary"""
    f = frac(b, d)
    n = 2 if b.is2D else 3
    per = [i for i in range(n) if b.periodic[i]]
    g = f[:, per] + 0.5
    return np.all(np.abs(g - np.round(g)) > margin, axis=1)


@contract(120)
def distances(t, rng):
    b = rbox(rng)
    n = int(rng.integers(1, 50))
    f = rng.uniform(-2.5, 2.5, (2 * n, 3))
    v = f32(unfrac(b, f))
    q, p = v[:n], v[n:]
    t.inp(box=box_dict(b), query_points=q, points=p)
    ok = safe(b, p.astype(float) - q)
    ref = np.linalg.norm(wrap(b, p.astype(float) - q), axis=1)
    q0, p0 = q.copy(), p.copy()
    d = b.compute_distances(q, p)
    t.check(d.shape == (n,), "compute_distances has the wrong shape", d.shape)
    t.close(d[ok], ref[ok], "compute_distances is not the length of the wrapped separation", atol=3e-3)
    t.close(b.compute_distances(p, q)[ok], d[ok], "distance is not symmetric", atol=3e-3)
    t.close(b.compute_distances(q, q), np.zeros(n), "distance of a point to itself is not zero", atol=1e-4)
    k = rng.integers(-2, 3, (n, 3)) * np.array([bool(x) for x in b.periodic])
    if b.is2D:
        k[:, 2] = 0
    t.close(b.compute_distances(f32(q + unfrac(b, k)), p)[ok], d[ok], "distance changes under a lattice translation", atol=6e-3)
    t.same(q, q0, "compute_distances changed its input")
    t.same(p, p0, "compute_distances changed its input")
    t.raises(lambda: b.compute_distances(q, np.concatenate([p, p[:1]])), "different numbers of points are accepted by compute_distances")


@contract(100)
def all_distances(t, rng):
    b = rbox(rng)
    n, m = int(rng.integers(1, 25)), int(rng.integers(1, 25))
    q = f32(unfrac(b, rng.uniform(-2.5, 2.5, (n, 3))))
    p = f32(unfrac(b, rng.uniform(-2.5, 2.5, (m, 3))))
    t.inp(box=box_dict(b), query_points=q, points=p)
    sep = (p.astype(float)[None] - q.astype(float)[:, None]).reshape(-1, 3)
    ok = safe(b, sep).reshape(n, m)
    ref = np.linalg.norm(wrap(b, sep), axis=1).reshape(n, m)
    d = b.compute_all_distances(q, p)
    t.check(d.shape == (n, m), "compute_all_distances has the wrong shape", d.shape)
    t.close(d[ok], ref[ok], "compute_all_distances[i, j] is not the distance of query point i and point j", atol=3e-3)


@contract(120)
def contains(t, rng):
    b = rbox(rng)
    n = int(rng.integers(1, 60))
    f = rng.uniform(-1.3, 1.3, (n, 3)) if rng.random() < 0.7 else rng.uniform(-0.7, 0.7, (n, 3))
    f = f[np.all(np.abs(np.abs(f) - 0.5) > 2e-3, axis=1) & np.all(np.abs(f) < 1.45, axis=1)]
    if not len(f):
        return
    v = f32(unfrac(b, f))
    t.inp(box=box_dict(b), points=v)
    k = 2 if b.is2D else 3
    ref = np.all(np.abs(f[:, :k]) < 0.5, axis=1)
    m = b.contains(v)
    t.same(m, ref, "contains is not membership of the primary cell")
    t.same(m, np.all(b.get_images(v) == 0, axis=1), "contains differs from get_images == 0")


def com_ref(b, v, m):
    f = frac(b, v) + 0.5
    a = 2 * np.pi * f
    w = m / m.sum()
    z = (w[:, None] * np.exp(1j * a)).sum(0)
    # (the code's convention: the phase of fraction 0.5 maps back to the centre)
    ph = np.angle(z)
    g = ph / (2 * np.pi)
    return unfrac(b, (g - 0.5)[None])[0], np.abs(z)


@contract(120)
def centre_of_mass(t, rng):
    b = random_box(freud, rng, L=(0.8, 25.0))
    n = int(rng.integers(1, 40))
    c = rng.uniform(-1, 1, 3)
    f = c + rng.uniform(-0.3, 0.3, (n, 3))
    v = f32(unfrac(b, f))
    if b.is2D:
        v[:, 2] = 0
    m = f32(rng.uniform(0.1, 5, n)) if rng.random() < 0.6 else None
    t.inp(box=box_dict(b), vecs=v, masses=m)
    w = np.ones(n) if m is None else m.astype(float)
    ref, conf = com_ref(b, v, w)
    if np.min(conf[:2 if b.is2D else 3]) < 0.2:
        return
    got = b.center_of_mass(v) if m is None else b.center_of_mass(v, m)
    diff = frac(b, got.astype(float) - ref)
    t.close(diff, np.round(diff), "center_of_mass is not the mass-weighted circular mean", atol=3e-3)
    fr = frac(b, got)
    t.check(np.all(np.abs(fr) < 0.5 + 1e-3), "center_of_mass lies outside the box", got)
    if m is not None:
        t.close(b.center_of_mass(v, f32(3 * m)), got, "center_of_mass depends on the scale of the masses", atol=5e-3)
    v0 = v.copy()
    ce = b.center(v) if m is None else b.center(v, m)
    t.same(v, v0, "center changed its input")
    d = frac(b, ce.astype(float) - (v - got))
    t.close(d, np.round(d), "center does not shift by minus the centre of mass", atol=3e-3)
    t.check(np.all(np.abs(frac(b, ce)) < 0.5 + 1e-3), "center returns points outside the box")
