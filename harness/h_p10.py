import numpy as np
import freud
from rt import *
from computes import Frame


def expected(lo, hi, n, frames, mode):
    """bin counts, rdf and n_r from brute-force bonds; frames: (box, nq, np, distances)"""
    e = lo + np.arange(n + 1) * (hi - lo) / n
    c = sum(np.histogram(d, bins=e)[0] for _, _, _, d in frames)
    b, nq, npts, _ = frames[-1]
    return e, c


@contract(160)
def normalisation(t, rng):
    k = int(rng.integers(1, 4))
    same = bool(rng.random() < 0.5)
    n = int(rng.integers(2, 25))
    m = int(rng.integers(1, 20))
    box = random_box(freud, rng, L=(3.0, 9.0))
    fs = [Frame(rng, box=box, n=n, m=m, same=same) for _ in range(k)]
    mode = str(rng.choice(["exact", "finite_size"]))
    lim = fs[0].limit
    hi = float(np.float32(rng.uniform(0.3, 0.98) * lim))
    lo = float(np.float32(rng.choice([0, rng.uniform(0.05, 0.8)]) * hi))
    nb = int(rng.integers(1, 15))
    t.inp(frames=k, box=box_dict(box), points=fs[0].p, query_points="points" if same else fs[0].q, r_min=lo, r_max=hi, bins=nb, mode=mode)
    o = freud.density.RDF(nb, hi, lo, normalization_mode=mode)
    e = lo + np.arange(nb + 1) * (hi - lo) / nb
    counts = np.zeros(nb, int)
    for i, f in enumerate(fs):
        kind = rng.random()
        if kind < 0.4:
            o.compute((f.box, f.p), query_points=f.q, reset=i == 0)
            sel = slice(None)
        else:
            nl = f.nlist(dict(mode="ball", r_max=hi, exclude_ii=same))
            o.compute((f.box, f.p), query_points=f.q, neighbors=nl, reset=i == 0)
        d = np.linalg.norm(pair_vectors(f.box, f.qp(), f.p), axis=2)
        if same:
            np.fill_diagonal(d, np.inf)
        d = d.ravel()
        if np.min(np.abs(d[:, None] - e[None, :]), initial=9) < 2e-5:
            return  # a bond on an edge: the bin is a matter of rounding
        counts += np.histogram(d, bins=e)[0]
    t.same(o.bin_counts.astype(int), counts, "bin counts are not the numbers of bonds per distance bin")
    nq = fs[0].nq
    V = box.volume
    dens = nq / V
    if mode == "finite_size":
        dens *= (nq - 1) / nq
    shell = np.pi * (e[1:] ** 2 - e[:-1] ** 2) if box.is2D else 4 / 3 * np.pi * (e[1:] ** 3 - e[:-1] ** 3)
    if dens > 0:
        t.close(o.rdf, counts / (k * n * dens * shell), "rdf is not count / (points, density, shell volume, frames)", rtol=3e-4, atol=1e-5)
    t.close(o.n_r, np.cumsum(counts) / (nq * k), "n_r is not the cumulative number of neighbours per query point", rtol=1e-4, atol=1e-6)
    t.close(o.bin_centers, (e[1:] + e[:-1]) / 2, "bin centres", rtol=1e-5, atol=1e-6)


@contract(30)
def default_neighbors(t, rng):
    """without neighbors argument all bonds up to r_max are used, self pairs left out only without query points"""
    f = Frame(rng)
    hi = 0.9 * f.limit
    t.inp(**f.desc(), r_max=hi)
    o = freud.density.RDF(5, hi).compute((f.box, f.p), query_points=f.q)
    g = freud.density.RDF(5, hi).compute((f.box, f.p), query_points=f.q, neighbors=f.nlist(dict(mode="ball", r_max=hi, exclude_ii=f.q is None)))
    t.same(o.bin_counts, g.bin_counts, "default neighbours differ from the ball query up to r_max")
    t.raises(lambda: freud.density.RDF(0, 1.0), "zero bins accepted", ValueError)
    t.raises(lambda: freud.density.RDF(3, 1.0, 2.0), "r_min above r_max accepted", ValueError)
    t.raises(lambda: freud.density.RDF(3, -1.0), "negative r_max accepted", ValueError)
    t.raises(lambda: freud.density.RDF(3, 1.0, normalization_mode="other"), "unknown normalization mode accepted")
