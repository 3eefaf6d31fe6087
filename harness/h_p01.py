import numpy as np
import freud
from rt import *


def rbox(rng):
    b = random_box(freud, rng, L=(0.5, 30.0))
    return b


@contract(150)
def absolute_fractional(t, rng):
    b = rbox(rng)
    n = int(rng.integers(1, 40))
    f = f32(rng.uniform(-2, 3, (n, 3)))
    t.inp(box=box_dict(b), fractions=f)
    a = b.make_absolute(f)
    ref = unfrac(b, f.astype(float) - 0.5)
    t.close(a, ref, "make_absolute is not origin plus fractions of the lattice vectors", atol=3e-4)
    g = b.make_fractional(a)
    want = f.astype(float).copy()
    if b.is2D:
        want[:, 2] = 0
    t.close(g, want, "make_fractional(make_absolute(f)) differs from f", atol=2e-3)
    one = b.make_absolute(f[0])
    t.close(one, a[0], "scalar and array make_absolute differ", atol=0, rtol=0)


@contract(150)
def wrap_contract(t, rng):
    b = rbox(rng)
    per = rng.random(3) < 0.7 if rng.random() < 0.5 else np.array([True] * 3)
    b.periodic = [bool(x) for x in per]
    n = int(rng.integers(1, 60))
    f = rng.uniform(-3.5, 3.5, (n, 3))
    f = f[np.all(np.abs(f + 0.5 - np.round(f + 0.5)) > 2e-3, axis=1)]
    if len(f) == 0:
        return
    v = f32(unfrac(b, f))
    t.inp(box=box_dict(b), vecs=v)
    v0 = v.copy()
    w = b.wrap(v)
    t.same(v, v0, "wrap changed its input")
    t.close(w, wrap(b, v), "wrap is not the representative in the primary cell", atol=2e-3)
    d = frac(b, w.astype(float) - v)
    t.close(d, np.round(d), "wrap moved by something other than a lattice vector", atol=2e-3)
    out = f32(np.empty_like(v))
    b.wrap(v, out=out)
    t.same(out, w, "wrap(out=) differs")
    t.same(b.wrap(v[0]), w[0], "scalar and array wrap differ")


@contract(150)
def images_unwrap(t, rng):
    b = rbox(rng)
    n = int(rng.integers(1, 60))
    f = rng.uniform(-3.5, 3.5, (n, 3))
    f = f[np.all(np.abs(f + 0.5 - np.round(f + 0.5)) > 2e-3, axis=1)]
    if len(f) == 0:
        return
    v = f32(unfrac(b, f))
    t.inp(box=box_dict(b), vecs=v)
    im = b.get_images(v)
    k = np.floor(f + 0.5)
    if b.is2D:
        k[:, 2] = 0
    t.same(im, k.astype(int), "get_images is not the cell index")
    u = b.unwrap(b.wrap(v), im)
    t.close(u, v, "unwrap(wrap(v), get_images(v)) differs from v", atol=5e-3)
    big = rng.integers(-7, 8, (len(v), 3)).astype(np.int32)
    u = b.unwrap(v, big)
    kk = big.astype(float).copy()
    if b.is2D:
        kk[:, 2] = 0
    t.close(u, v + unfrac(b, kk), "unwrap does not add image times lattice vectors", atol=5e-3, rtol=1e-4)
    one = b.unwrap(v[0], big)
    t.close(np.reshape(one, (-1, 3)), v[0] + unfrac(b, kk), "unwrap of one vector with many images", atol=5e-3, rtol=1e-4)
