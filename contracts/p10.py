"""P10: RDF counts, normalisation and cumulative counts."""
from .lib import *

TU = "density/RDF.cc"
ASSUMPTIONS = ["the neighbour list path of loopOverNeighbors; the query path calls the same function on the same bonds (P09)"]


def rdf(p):
    ex = p.ex
    n, rmax, rmin = p.size("bins", 1), p.real("rmax"), p.real("rmin")
    p.require(z3.And(rmax > rmin, rmin >= 0, n < 0x7fffffff))
    use_axis(ex)
    use_nlist(ex)
    r = ex.new("RDF", n, rmax, rmin)
    p.not_thrown("constructor accepts it")
    return r, n, rmin, rmax


@proof(TU)
def constructor(p):
    """bad parameters are rejected"""
    ex = p.ex
    n, rmax, rmin = p.int("bins"), p.real("rmax"), p.real("rmin")
    p.require(z3.And(n >= 0, n < 0x7fffffff))
    r = ex.new("RDF", n, rmax, rmin)
    p.ensure("throws exactly on bad parameters", p.thrown() == Not(z3.And(n >= 1, rmax > 0, rmin >= 0, rmax > rmin)))


@proof(TU, sizes=["bins"])
def volumes(p):
    """bin volumes: shells (3D) and rings (2D) between the bin's edges"""
    ex = p.ex
    r, n, lo, hi = rdf(p)
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    e = ex.method(r, "getBinEdges").get(iv(0))
    a, b = e.get(i), e.get(i + 1)
    p.ensure("number of edges", e.n == n + 1)
    p.ensure("edges", n * (a - lo) == i * (hi - lo))
    p.ensure("last edge", n * (b - lo) == (i + 1) * (hi - lo))
    v2 = at(ex, at(ex, r, "m_vol_array2D"), "flat", i)
    v3 = at(ex, at(ex, r, "m_vol_array3D"), "flat", i)
    p.ensure("2D", v2 == PI * (b * b - a * a))
    p.ensure("3D", 3 * v3 == 4 * PI * (b * b * b - a * a * a))


@proof(TU, sizes=["bins", "nl_bonds"])
def accumulate(p):
    """every bond adds one to the bin of its distance and nothing else changes;
    the frame counter, sizes, box and the pending-reduction mark are updated"""
    ex = p.ex
    r, n, rmin, rmax = rdf(p)
    nl = neighbor_list(p)
    nq = neighbor_query(p)
    h, bc, old = local_counts(p, r, n)
    fc = p.nat("frames")
    ex.write(Ptr(r.loc, ("m_frame_counter",)), fc)
    ex.write(Ptr(r.loc, ("m_reduce",)), p.bool("pending"))
    total = counts_of(p, at(ex, r, "m_histogram"))
    nqp = p.nat("nqp")
    ex.method(r, "accumulate", ex.alloc(nq.ptr), NULL, nqp, ex.alloc(nl.ptr), ex.alloc(UNDEF))
    p.not_thrown()
    j = p.int("j")
    binof = lambda k: AXBIN(n, rmin, rmax, nl.distance(k))
    p.ensure("counts", z3.Implies(z3.And(j >= 0, j < n), at(ex, bc, "flat", j) == old.get(j) + SUM(nl.n, lambda k: z3.If(binof(k) == j, 1, 0))))
    p.ensure("frame counted", at(ex, r, "m_frame_counter") == fc + 1)
    p.ensure("reduction pending", at(ex, r, "m_reduce"))
    p.ensure("number of points", at(ex, r, "m_n_points") == nq.np)
    p.ensure("number of query points", at(ex, r, "m_n_query_points") == nqp)
    p.eq("box", at(ex, r, "m_box"), nq.box)
    p.reach()


@proof(TU, sizes=["bins", "T"])
def reduce(p):
    """g(r) and N(r) from the counts, for any number of threads and frames"""
    ex = p.ex
    r, n, lo, hi = rdf(p)
    T = p.size("T")
    f = thread_items(p, r, "m_local_histograms", T, n)
    box = ex.symbolic("box", "freud::box::Box")
    ex.write(Ptr(r.loc, ("m_box",)), box)
    V = p.real("V")
    ex.contracts["Box::getVolume"] = lambda e, a, this: V        # (P02)
    nqp, np, nf = p.nat("nqp"), p.nat("np"), p.nat("nf")
    p.require(z3.And(nqp >= 1, np >= 1, nf >= 1, V > 0, nqp < 0x7fffffff, np < 0x7fffffff))
    fs = p.bool("finite_size")
    p.require(z3.Implies(fs, nqp >= 2))
    for k, v in (("m_n_query_points", nqp), ("m_n_points", np), ("m_frame_counter", nf), ("mode", z3.If(fs, iv(1), iv(0)))):
        ex.write(Ptr(r.loc, (k,)), v)
    ex.write(Ptr(r.loc, ("m_reduce",)), TRUE)
    stale(p, r, "m_pcf", "m_N_r")
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    e = ex.method(r, "getBinEdges").get(iv(0))
    vol = z3.If(box.f["m_2d"], at(ex, at(ex, r, "m_vol_array2D"), "flat", i), at(ex, at(ex, r, "m_vol_array3D"), "flat", i))
    g = ex.method(r, "getRDF")
    N = ex.method(r, "getNr")
    p.not_thrown()
    cnt = lambda j: SUM(T, lambda t: f(t, j))
    R_ = z3.ToReal
    p.ensure("bin counts", at(ex, counts_of(p, at(ex, r, "m_histogram")), "flat", i) == cnt(i))
    nd = z3.If(fs, fdiv(R_(nqp) - 1, V), fdiv(R_(nqp), V))
    p.lemma("volume positive", V > 0)
    p.ensure("g(r) is the count over the ideal-gas count", at(ex, g, "flat", i) == fdiv(R_(cnt(i)), R_(np) * nd * R_(nf) * vol))
    p.ensure("N(r) is the cumulative count per query point and frame",
             at(ex, N, "flat", i) * (R_(nqp) * R_(nf)) == SUM(i + 1, lambda k: R_(cnt(k))))
    p.ensure("nothing pending afterwards", Not(at(ex, r, "m_reduce")))
    undisturbed(p, r, [("m_local_histograms", f)], T, i,
                lambda: (at(ex, ex.method(r, "getRDF"), "flat", i), at(ex, ex.method(r, "getNr"), "flat", i), at(ex, ex.method(r, "getBinCounts"), "flat", i)))
    p.reach()


@proof(TU, sizes=["bins", "T"])
def reset(p):
    """reset forgets every earlier frame"""
    ex = p.ex
    r, n, lo, hi = rdf(p)
    T = p.size("T")
    f = thread_items(p, r, "m_local_histograms", T, n)
    ex.write(Ptr(r.loc, ("m_frame_counter",)), p.nat("nf"))
    ex.write(Ptr(r.loc, ("m_reduce",)), FALSE)
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    ex.method(r, "reset")
    p.not_thrown()
    p.ensure("no frames", at(ex, r, "m_frame_counter") == 0)
    p.ensure("reduction pending", at(ex, r, "m_reduce"))
    p.ensure("counts", at(ex, counts_of(p, at(ex, r, "m_histogram")), "flat", i) == 0)
    p.ensure("g(r)", at(ex, at(ex, r, "m_pcf"), "flat", i) == 0)
    p.ensure("N(r)", at(ex, at(ex, r, "m_N_r"), "flat", i) == 0)
    t = p.int("t")
    h = at(ex, r, "m_local_histograms", "m_local_histograms", "items").get(t)
    p.ensure("every thread's counts", z3.Implies(z3.And(t >= 0, t < T), at(ex, h.f["m_bin_counts"], "flat", i) == 0))
    p.ensure("binning kept", z3.And(at(ex, at(ex, r, "m_histogram").f["m_axes"].get(iv(0)), "m_nbins") == n))
    p.reach()
