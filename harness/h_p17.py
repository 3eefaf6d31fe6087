import itertools
import numpy as np
import freud
from rt import *


@contract(250)
def skin(t, rng):
    """buffer as a distance"""
    b = random_box(freud, rng, L=(2.0, 7.0))
    n = int(rng.integers(1, 12))
    p = random_points(b, rng, n)
    two = b.is2D
    if rng.random() < 0.5:
        buf = float(rng.uniform(0, 6))
        bv = [buf] * 3
    else:
        bv = [float(x) for x in rng.uniform(0, 6, 3)]
        if rng.random() < 0.3:
            bv[int(rng.integers(3))] = 0.0
        buf = bv
    inc = bool(rng.random() < 0.5)
    t.inp(box=box_dict(b), points=p, buffer=buf, include_input_points=inc)
    o = freud.locality.PeriodicBuffer().compute((b, p), buffer=buf, images=False, include_input_points=inc)
    L = np.array([b.Lx, b.Ly, b.Lz], float)
    nd = 2 if two else 3
    f = frac(b, p)[:, :nd]
    m = [int(np.ceil(bv[i] / L[i])) + 1 for i in range(nd)]
    want = {}
    for s in itertools.product(*[range(-k, k + 1) for k in m]):
        if not inc and not any(s):
            continue
        g = (f + np.array(s)) * L[:nd] / (L[:nd] + 2 * np.array(bv[:nd]))
        if np.any(np.abs(np.abs(g) - 0.5) < 1e-4):
            return  # on the face of the padded box
        for i in np.where((np.abs(g) < 0.5).all(1))[0]:
            want[(int(i),) + s] = 1
    pts, ids = np.asarray(o.buffer_points, float).reshape(-1, 3), np.asarray(o.buffer_ids)
    t.check(len(pts) == len(ids), "buffer_ids and buffer_points differ in length")
    got = {}
    for x, i in zip(pts, ids):
        d = frac(b, (x - p[i])[None])[0][:nd]
        s = np.round(d).astype(int)
        t.check(np.abs(d - s).max() < 2e-3, "a buffer point is not its original displaced by a lattice vector", (x, p[i]))
        key = (int(i),) + tuple(int(v) for v in s)
        t.check(key not in got, "a buffer point is reported twice", key)
        got[key] = 1
    t.check(set(got) == set(want), "buffer points are not exactly the images inside the padded box", f"missing {sorted(set(want) - set(got))[:5]} extra {sorted(set(got) - set(want))[:5]}")
    bb = o.buffer_box
    t.close([bb.Lx, bb.Ly, bb.Lz, bb.xy, bb.xz, bb.yz], list(L[:nd] + 2 * np.array(bv[:nd])) + ([0.0] if two else []) + [b.xy, b.xz, b.yz],
            "buffer_box is not the padded box", rtol=1e-5, atol=1e-5)
    t.check(bb.is2D == two, "buffer_box has another dimension")


@contract(150)
def images(t, rng):
    b = random_box(freud, rng, L=(2.0, 7.0))
    n = int(rng.integers(1, 10))
    p = random_points(b, rng, n)
    two = b.is2D
    if rng.random() < 0.5:
        k = int(rng.integers(0, 4))
        bv, buf = [k] * 3, k
    else:
        bv = [int(x) for x in rng.integers(0, 4, 3)]
        buf = bv
    inc = bool(rng.random() < 0.5)
    t.inp(box=box_dict(b), points=p, images=buf, include_input_points=inc)
    o = freud.locality.PeriodicBuffer().compute((b, p), buffer=buf, images=True, include_input_points=inc)
    nd = 2 if two else 3
    tot = int(np.prod([x + 1 for x in bv[:nd]]))
    pts, ids = np.asarray(o.buffer_points, float).reshape(-1, 3), np.asarray(o.buffer_ids)
    t.check(len(pts) == n * (tot if inc else tot - 1) == len(ids), "wrong number of image points", (len(pts), n, tot))
    t.same(np.bincount(ids, minlength=n), np.full(n, tot if inc else tot - 1), "images per point")
    bb = o.buffer_box
    L = np.array([b.Lx, b.Ly, b.Lz], float)
    t.close([bb.Lx, bb.Ly, bb.Lz][:nd], L[:nd] * (np.array(bv[:nd]) + 1), "buffer_box is not the box of the images", rtol=1e-5)
    seen = set()
    for x, i in zip(pts, ids):
        d = frac(b, (x - p[i])[None])[0][:nd]
        s = np.round(d).astype(int)
        t.check(np.abs(d - s).max() < 2e-3, "an image is not displaced by a lattice vector", (x, p[i]))
        g = frac(bb, x[None])[0][:nd]
        t.check(np.abs(g).max() < 0.5 + 1e-4, "an image is outside of buffer_box", x)
        key = (int(i),) + tuple(int(v) % (k + 1) for v, k in zip(s, bv))
        t.check(key not in seen, "an image is reported twice", key)
        seen.add(key)
        if not inc:
            t.check(any(key[1:]), "the original point is in the buffer", key)
    t.raises(lambda: freud.locality.PeriodicBuffer().compute((b, p), buffer=-0.5), "negative buffer accepted")


@contract(20)
def again(t, rng):
    b = random_box(freud, rng)
    p, q = random_points(b, rng, 5), random_points(b, rng, 3)
    t.inp(box=box_dict(b), points=p, second=q)
    o = freud.locality.PeriodicBuffer().compute((b, p), buffer=2.0)
    first = o.buffer_points.copy()
    keep = o.buffer_points
    o.compute((b, q), buffer=1.0)
    g = freud.locality.PeriodicBuffer().compute((b, q), buffer=1.0)
    t.same(o.buffer_points, g.buffer_points, "a second compute differs from a fresh object")
    t.same(o.buffer_ids, g.buffer_ids, "a second compute differs from a fresh object")
    t.same(keep, first, "a second compute changes the buffer points returned before")


import computes as _c
contract(40)(_c.reuse_of("PeriodicBuffer"))
