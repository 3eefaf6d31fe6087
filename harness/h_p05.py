import numpy as np
import freud
from rt import *
from computes import *

ACC = [c for c in REG + REG0 if c.acc]


def fresh(c, seed):
    return c.make(np.random.default_rng(seed))


def frames(c, rng, k):
    """frames of one series: same dimension, similar or different numbers of points"""
    dim = int(rng.choice(c.dims))
    box = random_box(freud, rng, dim=dim, L=(4.0, 8.0)) if rng.random() < 0.4 else None
    fs = [Frame(rng, dim=dim, box=box) for _ in range(k)]
    for f in fs:  # PMFTXYZ requires the same number of equivalent orientations while accumulating
        f.equiv = fs[0].equiv
    return fs


@contract(160)
def reset_equals_fresh(t, rng):
    """any history followed by compute(reset=True) gives a fresh object's result"""
    c = ACC[t.it % len(ACC)]
    seed = int(rng.integers(2**31))
    fs = frames(c, rng, 4)
    fs[3].equiv = Frame(rng).equiv
    args = [f.args(rng) for f in fs]
    t.inp(compute=c.name, seed=seed, args=args, frame0=fs[0].desc())
    o = fresh(c, seed)
    reads = rng.random(4) < 0.5
    for i in range(3):
        c.run(o, fs[i], args[i], reset=bool(rng.random() < 0.4) or i == 0)
        if reads[i]:
            c.res(o)
    c.run(o, fs[3], args[3], reset=True)
    a = c.res(o)
    g = fresh(c, seed)
    c.run(g, fs[3], args[3])
    b = c.res(g)
    # min_valid_k may keep the smallest box of earlier frames (checked in P22)
    a.pop("min_valid_k", None), b.pop("min_valid_k", None)
    assert_same(t, a, b, f"{c.name}: reset=True after other frames differs from a fresh object", exact=False, rtol=1e-5, atol=1e-6)


@contract(160)
def pooled_frames(t, rng):
    """bin counts add up; the order of frames and reads in between do not matter"""
    c = ACC[t.it % len(ACC)]
    seed = int(rng.integers(2**31))
    k = int(rng.integers(2, 5))
    fs = frames(c, rng, k)
    args = [f.args(rng) for f in fs]
    t.inp(compute=c.name, seed=seed, frames=k, args=args, frame0=fs[0].desc(), frame1=fs[1].desc())
    o = fresh(c, seed)
    counts = 0
    for f, a in zip(fs, args):
        one = fresh(c, seed)
        c.run(one, f, a)
        r = c.res(one)
        if "bin_counts" in r:
            counts = counts + r["bin_counts"].astype(np.int64)
    first = bool(rng.random() < 0.5)
    for i, (f, a) in enumerate(zip(fs, args)):
        c.run(o, f, a, reset=(i == 0 and first))
        if rng.random() < 0.4:
            c.res(o)
            c.res(o)
    A = c.res(o)
    if "bin_counts" in A:
        t.same(A["bin_counts"].astype(np.int64), counts, f"{c.name}: accumulated bin counts are not the sum of the frames' counts")
    # another order of the frames: the same counts
    o2 = fresh(c, seed)
    perm = rng.permutation(k)
    for i in perm:
        c.run(o2, fs[i], args[i], reset=False)
    B = c.res(o2)
    if "bin_counts" in A:
        t.same(A["bin_counts"], B["bin_counts"], f"{c.name}: bin counts depend on the order of frames")
    # densities use the box and number of points of the last frame; with one box and fixed numbers nothing may change
    same = all(f.n == fs[0].n and f.nq == fs[0].nq and f.box == fs[0].box for f in fs)
    if same or c.name in ("CorrelationFunction", "BondOrder", "StaticStructureFactorDebye"):
        assert_same(t, A, B, f"{c.name}: the order of frames changes the result", exact=False)


@contract(140)
def same_system_average(t, rng):
    """frames of one system size: densities of the pooled frames are the average of the frames' densities"""
    c = ACC[t.it % len(ACC)]
    seed = int(rng.integers(2**31))
    dim = int(rng.choice(c.dims))
    box = random_box(freud, rng, dim=dim, L=(4.0, 8.0))
    # two query points at least: the finite-size normalisation of one query point is a division by zero
    n, m = int(rng.integers(2, 15)), int(rng.integers(2, 12))
    same = bool(rng.random() < 0.4)
    k = int(rng.integers(2, 5))
    fs = [Frame(rng, box=box, n=n, m=m, same=same) for _ in range(k)]
    if c.name == "PMFTXYZ":
        for f in fs:
            f.equiv = fs[0].equiv
    args = fs[0].args(rng)
    t.inp(compute=c.name, seed=seed, frames=k, args=args, frame0=fs[0].desc())
    o = fresh(c, seed)
    singles = []
    for i, f in enumerate(fs):
        c.run(o, f, args, reset=(i == 0))
        if rng.random() < 0.3:
            c.res(o)
        g = fresh(c, seed)
        c.run(g, f, args)
        singles.append(c.res(g))
    A = c.res(o)
    for key in ("rdf", "n_r", "bond_order", "_pcf", "S_k"):
        if key in A:
            t.close(A[key], np.mean([s[key] for s in singles], axis=0), f"{c.name}: {key} of pooled frames is not the frames' average", rtol=2e-4, atol=1e-5)
    if c.name == "CorrelationFunction":
        w = np.array([s["bin_counts"] for s in singles], float)
        v = np.array([s["correlation"] for s in singles])
        tot = w.sum(0)
        exp = np.where(tot > 0, (w * v).sum(0) / np.maximum(tot, 1), 0)
        t.close(A["correlation"], exp, "CorrelationFunction: pooled frames are not the bond average over all frames")
    # the same frame twice changes no density
    o = fresh(c, seed)
    c.run(o, fs[0], args)
    c.run(o, fs[0], args, reset=False)
    B = c.res(o)
    for key in ("rdf", "n_r", "bond_order", "_pcf", "S_k", "correlation"):
        if key in B:
            t.close(B[key], singles[0][key], f"{c.name}: accumulating a frame twice changes {key}", rtol=1e-4, atol=1e-6)


@contract(80)
def repeatable_reads(t, rng):
    c = ACC[t.it % len(ACC)]
    seed = int(rng.integers(2**31))
    fs = frames(c, rng, 2)
    args = [f.args(rng) for f in fs]
    t.inp(compute=c.name, seed=seed, args=args, frame0=fs[0].desc())
    o = fresh(c, seed)
    c.run(o, fs[0], args[0])
    assert_same(t, c.res(o), c.res(o), f"{c.name}: reading a result twice")
    c.run(o, fs[1], args[1], reset=False)
    a = c.res(o)
    assert_same(t, a, c.res(o), f"{c.name}: reading a result twice")
    g = fresh(c, seed)
    c.run(g, fs[0], args[0])
    c.run(g, fs[1], args[1], reset=False)
    b = c.res(g)
    assert_same(t, a, b, f"{c.name}: a read between accumulations changes the result", exact=False, rtol=1e-6, atol=1e-7)
