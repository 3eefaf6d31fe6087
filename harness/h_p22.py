"""P22: Debye static structure factor."""
import numpy as np
import freud
from rt import *
from computes import Frame


def j0(x):
    """Bessel J0 by its integral (own formula)"""
    th = (np.arange(400) + 0.5) * np.pi / 400
    return np.cos(x[..., None] * np.sin(th)).mean(-1)


def debye(f, ks, total):
    d = np.linalg.norm(pair_vectors(f.box, f.qp(), f.p), axis=2).ravel()
    x = np.outer(ks, d)
    return (j0(np.maximum(x, 0)) if f.box.is2D else np.sinc(x / np.pi)).sum(1) / total


def brute(rng, k=None):
    nk = int(rng.integers(2, 20))
    hi = float(rng.uniform(1, 12))
    lo = float(rng.choice([0.0, rng.uniform(0, 0.9) * hi]))
    return nk, hi, lo


@contract(160)
def debye_sum(t, rng):
    nk, hi, lo = brute(rng)
    dim = int(rng.choice([2, 3]))
    n = int(rng.integers(1, 4))
    o = freud.diffraction.StaticStructureFactorDebye(nk, hi, lo)
    ks = np.linspace(lo, hi, nk)
    acc = np.zeros(nk)
    mink = np.inf
    fs = [Frame(rng, dim=dim, n=int(rng.integers(1, 14))) for _ in range(n)]
    t.inp(num_k_values=nk, k_max=hi, k_min=lo, frames=[f.desc() for f in fs])
    if rng.random() < 0.3:
        g = Frame(rng, dim=dim)
        o.compute((g.box, g.p))
        if rng.random() < 0.5:
            o.S_k
    for i, f in enumerate(fs):
        N = None if f.q is None else int(rng.integers(1, 30))
        o.compute((f.box, f.p), query_points=f.q, N_total=N, reset=i == 0)
        acc += debye(f, ks, f.n if N is None else N)
        Ls = f.box.L[:2] if f.box.is2D else f.box.L
        mink = min(mink, 4 * np.pi / min(Ls))
        if rng.random() < 0.5:
            t.close(o.S_k, acc / (i + 1), "S_k is not the frame average of the Debye sum", rtol=2e-3, atol=3e-3)
            t.close(o.min_valid_k, mink, "min_valid_k is not 4 pi / L of the boxes used", rtol=1e-4)
    t.close(o.S_k, acc / n, "S_k is not the frame average of the Debye sum", rtol=2e-3, atol=3e-3)
    t.close(o.k_values, ks, "k values are not equally spaced from k_min to k_max", atol=2e-4)
    t.close(o.min_valid_k, mink, "min_valid_k is not 4 pi / L of the boxes used", rtol=1e-4)


@contract(20)
def arguments(t, rng):
    S = freud.diffraction.StaticStructureFactorDebye
    f = Frame(rng, same=True, n=8)
    g = Frame(rng, same=False, n=8, m=5)
    t.inp(**f.desc())
    t.raises(lambda: S(5, 1.0, 2.0), "k_min above k_max is accepted")
    t.raises(lambda: S(5, 1.0, -1.0), "a negative k_min is accepted")
    t.raises(lambda: S(5, 0.0), "k_max = 0 is accepted")
    t.raises(lambda: S(0, 1.0), "no k values are accepted")
    t.raises(lambda: S(5, 3.0).compute((g.box, g.p), query_points=g.q), "query points without N_total are accepted")


import computes as _c
contract(40)(_c.reuse_of("StaticStructureFactorDebye"))
