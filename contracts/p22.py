"""P22: Debye static structure factor."""
from .lib import *

TU = "diffraction/StaticStructureFactorDebye.cc"
BASE = "diffraction/StaticStructureFactor.cc"
ASSUMPTIONS = ["sin and the Bessel function J0 are uninterpreted", "at least two k values (one has no spacing)"]


def debye(p):
    ex = p.ex
    n, kmax, kmin = p.size("bins", 2), p.real("kmax"), p.real("kmin")
    p.require(z3.And(kmax > kmin, kmin >= 0, n < 0x7fffffff))
    use_axis(ex)
    r = ex.new("StaticStructureFactorDebye", n, kmax, kmin)
    p.not_thrown("constructor accepts it")
    return r, n, kmin, kmax


@proof([TU, BASE])
def constructor(p):
    """bad parameters are rejected"""
    ex = p.ex
    n, kmax, kmin = p.int("bins"), p.real("kmax"), p.real("kmin")
    p.require(z3.And(n >= 2, n < 0x7fffffff))
    ex.new("StaticStructureFactorDebye", n, kmax, kmin)
    p.ensure("throws exactly on bad parameters", p.thrown() == Not(z3.And(kmax > 0, kmin >= 0, kmax > kmin)))


@proof([TU, BASE], sizes=["bins"])
def k_values(p):
    """k values are equally spaced from k_min to k_max"""
    ex = p.ex
    r, n, lo, hi = debye(p)
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    c = ex.method(r, "getBinCenters")
    p.ensure("number", c.n == n)
    p.ensure("equally spaced", (n - 1) * (c.get(i) - lo) == i * (hi - lo))
    p.reach()


def distances(p, nq, qps, nqp):
    """Box::computeAllDistances by its contract (P02: all_distances): row-major over its first and second points"""
    ex = p.ex
    D = z3.Function("distance", I, I, R)

    def con(e, a, this):
        pts, n, qp, m, out = a[0], e.rd(a[1]), a[2], e.rd(a[3]), a[4]
        for x, y, nm in ((pts, nq.points, "points"), (qp, qps, "query points")):
            e.oblige(f"distances between the {nm}", z3.BoolVal(isinstance(x, Ptr) and same(x, y)), "pre")
        e.oblige("distances between all points", And(to_int(n) == nq.np, to_int(m) == nqp), "pre")
        arr = Ptr(out.loc, out.path[:-1])
        e.oblige("room for all distances", And(out.path[-1] == 0, e.read(arr).n == nq.np * nqp), "pre")
        e.write(arr, Arr(nq.np * nqp, lambda t: D(t / nqp, t % nqp), "float"))
    ex.contracts["Box::computeAllDistances"] = con
    return D


@proof([TU, BASE], sizes=["bins", "sys_np", "nqp"])
def accumulate(p):
    """every k value gains the sum of sin(kr)/(kr) (J0(kr) in 2D) over all pairs divided by n_total; nothing else changes"""
    ex = p.ex
    r, n, lo, hi = debye(p)
    nq = neighbor_query(p)
    nqp = p.size("nqp", 1)
    p.require(nq.np >= 1)
    qps, _ = arr_ptr(ex, "qpoints", nqp)
    D = distances(p, nq, qps, nqp)
    h, bc, old = local_counts(p, r, n, "m_local_structure_factor", "sk", "float")
    fc, ntot, mk = p.nat("frames"), p.size("n_total", 1), p.real("min_k")
    for k, v in (("m_frame_counter", fc), ("m_reduce", p.bool("pending")), ("m_min_valid_k", mk)):
        ex.write(Ptr(r.loc, (k,)), v)
    ex.method(r, "accumulate", ex.alloc(nq.ptr), qps, nqp, ntot)
    p.not_thrown()
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    k = ex.method(r, "getBinCenters").get(i)
    d = lambda t: D(t / nqp, t % nqp)
    J, SIN = uf("cyl_bessel_j", R, R, R), uf("sin", R, R)
    sinc = lambda x: z3.If(x == 0, rv(1), fdiv(SIN(x), x))
    two = nq.box.f["m_2d"]
    total = nq.np * nqp
    k0 = z3.If(k > 0, k, rv(0))
    s2 = SUM(total, lambda t: J(rv(0), k0 * d(t)))
    s3 = SUM(total, lambda t: sinc(k * d(t)))
    nt = z3.ToReal(ntot)
    gain = at(ex, bc, "flat", i) - old.get(i)
    p.ensure("2D: J0(kr) of all pairs over n_total", z3.Implies(two, gain == fdiv(s2, nt)))
    p.ensure("3D: sin(kr)/(kr) of all pairs over n_total", z3.Implies(Not(two), gain == fdiv(s3, nt)))
    p.ensure("frame counted", at(ex, r, "m_frame_counter") == fc + 1)
    p.ensure("reduction pending", at(ex, r, "m_reduce"))
    L = comps(nq.box.f["m_L"])
    m = at(ex, r, "m_min_valid_k")
    lo_ = z3.If(two, z3.If(L[0] < L[1], L[0], L[1]), z3.If(z3.And(L[0] <= L[1], L[0] <= L[2]), L[0], z3.If(L[1] <= L[2], L[1], L[2])))
    new = fdiv(4 * PI, lo_)
    p.ensure("least valid k: 4 pi over the shortest side, the least of all frames", m == z3.If(mk < new, mk, new))
    p.reach()


@proof([TU, BASE], sizes=["bins", "T"])
def reduce(p):
    """S(k) is the average over frames of what all threads have summed"""
    ex = p.ex
    r, n, lo, hi = debye(p)
    T = p.size("T")
    f = thread_items(p, r, "m_local_structure_factor", T, n, ety="float")
    nf = p.nat("nf")
    p.require(nf >= 1)
    ex.write(Ptr(r.loc, ("m_frame_counter",)), nf)
    ex.write(Ptr(r.loc, ("m_reduce",)), TRUE)
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    s = ex.method(r, "getStructureFactor")
    p.not_thrown()
    p.ensure("S(k)", at(ex, s, "flat", i) == fdiv(SUM(T, lambda t: f(t, i)), z3.ToReal(nf)))
    p.ensure("nothing pending afterwards", Not(at(ex, r, "m_reduce")))
    again = ex.method(r, "getStructureFactor")
    p.ensure("reading again gives the same", at(ex, again, "flat", i) == at(ex, s, "flat", i))
    p.reach()


@proof([TU, BASE], sizes=["bins", "T"])
def reset(p):
    """reset forgets every earlier frame"""
    ex = p.ex
    r, n, lo, hi = debye(p)
    T = p.size("T")
    f = thread_items(p, r, "m_local_structure_factor", T, n, ety="float")
    fresh = ex.new("StaticStructureFactorDebye", n, hi, lo)
    for k, v in (("m_frame_counter", p.nat("nf")), ("m_reduce", FALSE), ("m_min_valid_k", p.real("min_k"))):
        ex.write(Ptr(r.loc, (k,)), v)
    i = p.int("i")
    p.require(z3.And(i >= 0, i < n))
    k0 = ex.method(fresh, "getBinCenters").get(i)
    ex.method(r, "reset")
    p.not_thrown()
    p.ensure("no frames", at(ex, r, "m_frame_counter") == 0)
    p.ensure("reduction pending", at(ex, r, "m_reduce"))
    p.ensure("no least valid k", at(ex, r, "m_min_valid_k") == at(ex, fresh, "m_min_valid_k"))
    p.ensure("sums", at(ex, counts_of(p, at(ex, r, "m_structure_factor")), "flat", i) == 0)
    t = p.int("t")
    h = at(ex, r, "m_local_structure_factor", "m_local_histograms", "items").get(t)
    p.ensure("every thread's sums", z3.Implies(z3.And(t >= 0, t < T), at(ex, h.f["m_bin_counts"], "flat", i) == 0))
    p.ensure("k values kept", ex.method(r, "getBinCenters").get(i) == k0)
    p.reach()
