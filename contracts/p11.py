"""P11: correlation function."""
from .lib import *

TU = "density/CorrelationFunction.cc"
ASSUMPTIONS = ["the neighbour list path of loopOverNeighbors; the query path calls the same function on the same bonds (P09)",
               "real-valued input is passed as complex with zero imaginary part (Python layer)"]


def cf(p):
    ex = p.ex
    n, rmax = p.size("bins", 1), p.real("rmax")
    p.require(z3.And(rmax > 0, n < 0x7fffffff))
    use_axis(ex)
    use_nlist(ex)
    r = ex.new("CorrelationFunction", n, rmax)
    p.not_thrown("constructor accepts it")
    return r, n, rmax


@proof(TU)
def constructor(p):
    """bad parameters are rejected"""
    ex = p.ex
    n, rmax = p.int("bins"), p.real("rmax")
    p.require(z3.And(n >= 0, n < 0x7fffffff))
    ex.new("CorrelationFunction", n, rmax)
    p.ensure("throws exactly on bad parameters", p.thrown() == Not(z3.And(n >= 1, rmax > 0)))


@proof(TU, sizes=["bins", "nl_bonds"])
def accumulate(p):
    """every bond adds one to its bin's count and conj(value of the point) times
    the value of the query point to its bin's sum; nothing else changes"""
    ex = p.ex
    r, n, rmax = cf(p)
    nl = neighbor_list(p)
    nq = neighbor_query(p)
    h, bc, old = local_counts(p, r, n)
    hc, cc, oldc = local_counts(p, r, n, "m_local_correlation_function", "corr", "std::complex<double>")
    fc = p.nat("frames")
    ex.write(Ptr(r.loc, ("m_frame_counter",)), fc)
    ex.write(Ptr(r.loc, ("m_reduce",)), p.bool("pending"))
    vp, va = arr_ptr(ex, "values", nl.np, "std::complex<double>")
    qp, qa = arr_ptr(ex, "query_values", nl.nq, "std::complex<double>")
    nqp = p.nat("nqp")
    ex.method(r, "accumulate", ex.alloc(nq.ptr), vp, NULL, qp, nqp, ex.alloc(nl.ptr), ex.alloc(UNDEF))
    p.not_thrown()
    j = p.int("j")
    p.require(z3.And(j >= 0, j < n))
    inbin = lambda k: AXBIN(n, rv(0), rmax, nl.distance(k)) == j
    p.ensure("counts", at(ex, bc, "flat", j) == old.get(j) + SUM(nl.n, lambda k: z3.If(inbin(k), 1, 0)))

    def prod(k):
        x, y = at(ex, va, nl.point(k)), at(ex, qa, nl.query(k))
        return (x.f["re"] * y.f["re"] + x.f["im"] * y.f["im"], x.f["re"] * y.f["im"] - x.f["im"] * y.f["re"])
    o, nw = oldc.get(j), at(ex, cc, "flat", j)
    for q, c in enumerate(("re", "im")):
        p.ensure(f"sum of products, {c}", nw.f[c] == o.f[c] + SUM(nl.n, lambda k: z3.If(inbin(k), prod(k)[q], rv(0))))
    p.ensure("frame counted", at(ex, r, "m_frame_counter") == fc + 1)
    p.ensure("reduction pending", at(ex, r, "m_reduce"))
    p.eq("box", at(ex, r, "m_box"), nq.box)
    p.reach()


def cthreads(p, r, field, T, n, nm):
    """T threads with arbitrary complex sums"""
    ex = p.ex
    h = at(ex, r, field, "m_local_histograms", "items", iv(0))
    proto = ex.read(h.f["m_bin_counts"])
    fr, fi = z3.Function(nm + "_re", I, I, R), z3.Function(nm + "_im", I, I, R)
    arr = ex.alloc(Arr(T, lambda t: Struct(proto.cls, {"shape": proto.f["shape"], "flat": Arr(n, lambda j: cx(fr(t, j), fi(t, j), "complex<double>"), "std::complex<double>"),
                                                       "nest": proto.f["nest"], "tag": flat_tag(proto)})), nm)
    ex.write(Ptr(r.loc, r.path + (field, "m_local_histograms", "items")), Arr(T, lambda t: Struct(h.cls, dict(h.f, m_bin_counts=Ptr(arr.loc, (t,))))))
    return fr, fi


@proof(TU, sizes=["bins", "T"])
def reduce(p):
    """the result is the sum over threads divided by the count, zero where nothing was counted"""
    ex = p.ex
    r, n, rmax = cf(p)
    T = p.size("T")
    f = thread_items(p, r, "m_local_histograms", T, n)
    fr, fi = cthreads(p, r, "m_local_correlation_function", T, n, "cs")
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    ex.write(Ptr(r.loc, ("m_frame_counter",)), p.nat("nf"))
    ex.write(Ptr(r.loc, ("m_reduce",)), TRUE)
    stale(p, r)
    stale(p, r, hist="m_correlation_function")
    c = ex.method(r, "getCorrelation")
    p.not_thrown()
    cnt = SUM(T, lambda t: f(t, i))
    p.ensure("bin counts", at(ex, counts_of(p, at(ex, r, "m_histogram")), "flat", i) == cnt)
    v = at(ex, c, "flat", i)
    for q, ff in (("re", fr), ("im", fi)):
        s = SUM(T, lambda t: ff(t, i))
        p.ensure(f"average over the bin's bonds, {q}", v.f[q] == z3.If(cnt != 0, fdiv(s, z3.ToReal(cnt)), s))
    p.ensure("nothing pending afterwards", Not(at(ex, r, "m_reduce")))

    def get():
        v = at(ex, ex.method(r, "getCorrelation"), "flat", i)
        return v.f["re"], v.f["im"], at(ex, ex.method(r, "getBinCounts"), "flat", i)
    undisturbed(p, r, [("m_local_histograms", f), ("m_local_correlation_function", lambda t, j: {"re": fr(t, j), "im": fi(t, j)})], T, i, get)
    p.reach()


@proof(TU, sizes=["bins", "T"])
def reset(p):
    """reset forgets every earlier frame"""
    ex = p.ex
    r, n, rmax = cf(p)
    T = p.size("T")
    thread_items(p, r, "m_local_histograms", T, n)
    cthreads(p, r, "m_local_correlation_function", T, n, "cs")
    ex.write(Ptr(r.loc, ("m_frame_counter",)), p.nat("nf"))
    ex.write(Ptr(r.loc, ("m_reduce",)), FALSE)
    i, t = p.int("i"), p.int("t")
    p.require(z3.And(i >= 0, i < n))
    ex.method(r, "reset")
    p.not_thrown()
    p.ensure("no frames", at(ex, r, "m_frame_counter") == 0)
    p.ensure("reduction pending", at(ex, r, "m_reduce"))
    p.ensure("counts", at(ex, counts_of(p, at(ex, r, "m_histogram")), "flat", i) == 0)
    v = at(ex, counts_of(p, at(ex, r, "m_correlation_function")), "flat", i)
    p.ensure("sums", z3.And(v.f["re"] == 0, v.f["im"] == 0))
    h = at(ex, r, "m_local_histograms", "m_local_histograms", "items").get(t)
    g = at(ex, r, "m_local_correlation_function", "m_local_histograms", "items").get(t)
    w = at(ex, g.f["m_bin_counts"], "flat", i)
    p.ensure("every thread's counts", z3.Implies(z3.And(t >= 0, t < T), at(ex, h.f["m_bin_counts"], "flat", i) == 0))
    p.ensure("every thread's sums", z3.Implies(z3.And(t >= 0, t < T), z3.And(w.f["re"] == 0, w.f["im"] == 0)))
    p.reach()
