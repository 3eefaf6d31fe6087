import numpy as np
import freud
from rt import *
from computes import Frame


@contract(200)
def bond_average(t, rng):
    k = int(rng.integers(1, 4))
    dim = int(rng.choice([2, 3]))
    same = bool(rng.random() < 0.5)
    fs = [Frame(rng, dim=dim, same=same) for _ in range(k)]
    hi = float(np.float32(rng.uniform(0.5, 4)))
    nb = int(rng.integers(1, 12))
    real = bool(rng.random() < 0.3)
    own = bool(same and rng.random() < 0.5)
    t.inp(frames=k, **fs[0].desc(), r_max=hi, bins=nb, real_values=real, values=fs[0].val, query_values="values" if own else fs[0].qval)
    o = freud.density.CorrelationFunction(nb, hi)
    e = np.arange(nb + 1) * hi / nb
    cnt, tot = np.zeros(nb, int), np.zeros(nb, complex)
    for i, f in enumerate(fs):
        val, qval = f.val, f.qval
        if real:
            val, qval = val.real.copy(), qval.real.copy()
        if own:
            qval = val
        args = f.args(rng)
        nl = f.nlist(args)
        o.compute((f.box, f.p), val, query_points=f.q, query_values=None if own else qval,
                  neighbors=nl if rng.random() < 0.5 else args, reset=i == 0)
        d = np.asarray(nl.distances, float)
        if len(d) and np.min(np.abs(d[:, None] - e[None, :])) < 1e-5:
            return
        ij = np.asarray(nl[:]).reshape(-1, 2)
        b = np.floor(d / hi * nb).astype(int)
        ok = b < nb
        np.add.at(cnt, b[ok], 1)
        np.add.at(tot, b[ok], (np.conj(val[ij[ok, 1]]) * qval[ij[ok, 0]]))
    exp = np.where(cnt > 0, tot / np.maximum(cnt, 1), 0)
    t.same(o.bin_counts.astype(int), cnt, "bin counts are not the numbers of bonds")
    t.close(o.correlation, exp.real if real else exp, "correlation is not the bond average of conj(value) * query value", rtol=1e-5, atol=1e-6)
    t.close(o.bin_centers, (e[1:] + e[:-1]) / 2, "bin centres", rtol=1e-5, atol=1e-6)
