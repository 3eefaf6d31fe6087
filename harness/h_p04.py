import numpy as np
import freud
from rt import *

NL = freud.locality.NeighborList


def system(n=2, L=50.0, dim=3):
    b = freud.box.Box.square(L) if dim == 2 else freud.box.Box.cube(L)
    return b, np.zeros((n, 3), np.float32)


def nlist(v, n=2):
    v = f32(v).reshape(-1, 3)
    return NL.from_arrays(n, n, np.zeros(len(v), np.uint32), np.ones(len(v), np.uint32), v)


def edges_of(lo, hi, n):
    return lo + np.arange(n + 1) * ((hi - lo) / n)


def bin_of(x, lo, hi, n):
    """the bin whose half-open interval contains x, -1 when out of range or NaN; for exact edges only"""
    if not (x >= lo and x < hi):
        return -1
    e = edges_of(lo, hi, n)
    return int(np.searchsorted(e, x, side="right")) - 1


@contract(120)
def exact_edges_1d(t, rng):
    """edges that are exact in float32: values on, just below and just above every edge"""
    w = float(2.0 ** int(rng.integers(-3, 2)))
    n = int(rng.integers(1, 17))
    lo = w * int(rng.integers(0, 4))
    hi = lo + n * w
    e = edges_of(lo, hi, n)
    xs = np.concatenate([e, np.nextafter(f32(e), np.float32(np.inf)), np.nextafter(f32(e), np.float32(-np.inf)),
                         rng.uniform(0, hi * 1.3, 20), [np.nan, np.inf, 1e30]])
    xs = f32(xs[(xs >= 0) | np.isnan(xs)])
    rng.shuffle(xs)
    t.inp(bins=n, r_min=lo, r_max=hi, distances=xs)
    b, p = system()
    rdf = freud.density.RDF(n, hi, lo)
    t.close(rdf.bin_edges, e, "bin edges are not equally spaced between the bounds", rtol=1e-6, atol=1e-6)
    t.close(rdf.bin_centers, (e[1:] + e[:-1]) / 2, "bin centres are not the midpoints of the bins", rtol=1e-6, atol=1e-6)
    t.check(rdf.nbins == n and np.allclose(rdf.bounds, (lo, hi)), "bounds or number of bins", (rdf.nbins, rdf.bounds))
    exp = np.zeros(n, int)
    # distances so close to the upper bound that scaling rounds them up must go to the last bin
    v = np.zeros((len(xs), 3), np.float32)
    v[:, 0] = xs
    nl = nlist(v)
    rdf.compute((b, p), neighbors=nl)
    ambiguous = np.zeros(n, int)
    for x in np.asarray(nl.distances, np.float64):
        k = bin_of(x, lo, hi, n)
        if k >= 0:
            exp[k] += 1
    got = rdf.bin_counts
    t.check(int(got.sum()) == int(exp.sum()), "the number of counted values is not the number of values in range", f"{got} expected {exp}")
    # a value one ulp below an inner edge may round onto the edge when lo > 0
    if lo == 0:
        t.same(got.astype(int), exp, "values are not counted in the bin that encloses them")
    else:
        t.check(np.abs(np.cumsum(got.astype(int)) - np.cumsum(exp)).max() <= 1, "values are not counted in the bin that encloses them", f"{got} expected {exp}")


@contract(100)
def random_axes_1d(t, rng):
    """arbitrary bounds: a value well inside a bin is counted there"""
    n = int(rng.integers(1, 60))
    lo = float(np.float32(rng.choice([0.0, rng.uniform(0, 3)])))
    hi = float(np.float32(lo + rng.uniform(0.01, 20)))
    xs = f32(rng.uniform(max(0, lo - 2), hi + 2, 50))
    t.inp(bins=n, r_min=lo, r_max=hi, distances=xs)
    e = edges_of(lo, hi, n)
    w = (hi - lo) / n
    tol = 4e-6 * max(hi, 1)
    near = np.min(np.abs(xs[:, None].astype(float) - e[None, :]), axis=1) < tol
    xs = xs[~near]
    if not len(xs):
        return
    v = np.zeros((len(xs), 3), np.float32)
    v[:, 1] = xs
    b, p = system()
    rdf = freud.density.RDF(n, hi, lo).compute((b, p), neighbors=nlist(v))
    exp = np.histogram(xs.astype(float), bins=e)[0]
    t.same(rdf.bin_counts.astype(int), exp, "values are not counted in the bin that encloses them")


@contract(120)
def row_major_nd(t, rng):
    """n-dimensional histograms: every bin has its own position in row-major order"""
    nx, ny, nz = (int(rng.integers(1, 7)) for _ in range(3))
    X, Y, Z = (float(2.0 ** int(rng.integers(-1, 3))) * k / 2 for k in (nx, ny, nz))
    o = freud.pmft.PMFTXYZ(X, Y, Z, (nx, ny, nz))
    b, p = system()
    m = int(rng.integers(1, 60))
    idx = np.stack([rng.integers(0, k, m) for k in (nx, ny, nz)], 1)
    f = (idx + rng.uniform(0.05, 0.95, (m, 3))) / np.array([nx, ny, nz])
    v = f32((2 * f - 1) * np.array([X, Y, Z]))
    out = f32(rng.uniform(-3, 3, (10, 3)) * np.array([X, Y, Z]))
    keep = (np.abs(out) > np.array([X, Y, Z]) * 1.001).any(1)
    out = out[keep]
    allv = np.concatenate([v, out, [[np.nan, 0, 0], [0, 0, np.nan]]])
    t.inp(bins=(nx, ny, nz), bounds=(X, Y, Z), vectors=allv)
    one = np.zeros((2, 4), np.float32)
    one[:, 0] = 1
    o.compute((b, p), one, neighbors=nlist(allv))
    exp = np.zeros((nx, ny, nz), int)
    np.add.at(exp, tuple(idx.T), 1)
    t.same(o.bin_counts.astype(int), exp, "PMFTXYZ: bonds are not counted at the row-major position of their bin")
    for k, (w, n) in enumerate(zip((X, Y, Z), (nx, ny, nz))):
        t.close(o.bin_edges[k], edges_of(-w, w, n), "bin edges", rtol=1e-6, atol=1e-6)
        t.close(o.bin_centers[k], (edges_of(-w, w, n)[1:] + edges_of(-w, w, n)[:-1]) / 2, "bin centres", rtol=1e-6, atol=1e-6)
    # 2D
    o = freud.pmft.PMFTXY(X, Y, (nx, ny))
    b, p = system(dim=2)
    v2 = v.copy()
    v2[:, 2] = 0
    o.compute((b, p), np.zeros(2, np.float32), neighbors=nlist(v2))
    exp = np.zeros((nx, ny), int)
    np.add.at(exp, tuple(idx[:, :2].T), 1)
    t.same(o.bin_counts.astype(int), exp.squeeze(), "PMFTXY: bonds are not counted at the row-major position of their bin")


@contract(40)
def total_counts(t, rng):
    """counts of an ordinary system add up to the number of in-range bonds"""
    b = random_box(freud, rng)
    p = random_points(b, rng, int(rng.integers(2, 40)))
    r = float(rng.uniform(0.3, 0.97)) * float(plane_distance(b).min()) / 2
    lo, hi = sorted(float(np.float32(x)) for x in rng.uniform(0, 5, 2))
    if hi - lo < 1e-3:
        return
    n = int(rng.integers(1, 30))
    t.inp(box=box_dict(b), points=p, r_max=r, axis=(lo, hi, n))
    nl = freud.locality.AABBQuery(b, p).query(p, dict(r_max=r, exclude_ii=True)).toNeighborList()
    d = np.asarray(nl.distances)
    o = freud.density.RDF(n, hi, lo).compute((b, p), neighbors=nl)
    t.check(int(o.bin_counts.sum()) == int(((d >= np.float32(lo)) & (d < np.float32(hi))).sum()), "the number of counted values is not the number of values in range", o.bin_counts.sum())
    cf = freud.density.CorrelationFunction(n, hi).compute((b, p), np.ones(len(p)), neighbors=nl)
    t.check(int(cf.bin_counts.sum()) == int((d < np.float32(hi)).sum()), "CorrelationFunction: the number of counted values is not the number of values in range", cf.bin_counts.sum())
