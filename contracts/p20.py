"""P20: bond order diagrams bin every bond direction on the sphere."""
from .lib import *

TU = "environment/BondOrder.cc"
ASSUMPTIONS = ["the neighbour list path of loopOverNeighbors; the query path calls the same function on the same bonds (P09)",
               "cos, sin, atan2, acos are uninterpreted (0 <= acos <= pi on [-1, 1])",
               "fewer than 2^32 - 1 bins in total (the overflow marker is not a bin)"]
TWO_PI = 2 * PI
R_ = z3.ToReal
MODES = ("bod", "lbod", "obcd", "oocd")


@proof(TU)
def rotation(p):
    """rotate(q, v) is the rotation of v by q: it keeps lengths, is undone by conj(q), and has the
    axis of q as its axis"""
    ex = p.ex
    q, v = ex.symbolic("q", "quat<float>"), ex.symbolic("v", "vec3<float>")
    r = ex.func("rotate", ex.alloc(q), ex.alloc(v))
    want = qrot(q, comps(v))
    for c, x in zip("xyz", want):
        p.ensure(f"formula {c}", r.f[c] == x)
    u = comps(q.f["v"])
    n = q.f["s"] * q.f["s"] + u[0] * u[0] + u[1] * u[1] + u[2] * u[2]
    p.ensure("length times the squared norm of q", norm2(r) == n * n * norm2(v))
    b = ex.func("rotate", ex.alloc(ex.func("conj", ex.alloc(q))), ex.alloc(r))
    for c in "xyz":
        p.ensure(f"undone by the conjugate: {c}", b.f[c] == n * n * v.f[c])
    a = ex.func("rotate", ex.alloc(q), ex.alloc(q.f["v"]))
    for c in "xyz":
        p.ensure(f"axis is fixed: {c}", a.f[c] == n * q.f["v"].f[c])


def bo(p, mode):
    ex = p.ex
    use_axis(ex)
    use_nlist(ex)
    use_modpos(ex)
    nt, np = p.size("n_theta", 2), p.size("n_phi", 2)
    p.require(z3.And(nt < 0x7fffffff, np < 0x7fffffff, nt >= 2, np >= 2))
    p.lemma("bin widths", z3.And(fdiv(TWO_PI, R_(nt)) <= TWO_PI, fdiv(PI, R_(np)) <= PI))
    b = ex.new("BondOrder", nt, np, iv(MODES.index(mode)))
    p.not_thrown("constructor accepts it")
    return b, nt, np


@proof(TU)
def constructor(p):
    """bad parameters are rejected; axes; solid angles"""
    ex = p.ex
    nt, np = p.nat("n_theta"), p.nat("n_phi")
    p.require(z3.And(nt < 0x7fffffff, np < 0x7fffffff))
    ex.new("BondOrder", nt, np, iv(0))
    p.ensure("throws exactly on bad parameters", p.thrown() == Not(z3.And(nt >= 2, np >= 2)))


@proof(TU, sizes=["n_theta", "n_phi"])
def axes(p):
    """theta in [0, 2 pi), phi in [0, pi); phi = pi is put in the last bin"""
    ex = p.ex
    nt, np = p.size("n_theta", 2), p.size("n_phi", 2)
    p.require(z3.And(nt < 0x7fffffff, np < 0x7fffffff, nt >= 2, np >= 2))
    b = ex.new("BondOrder", nt, np, iv(0))
    p.not_thrown("constructor accepts it")
    h = at(ex, b, "m_histogram")
    for k, (n, hi) in enumerate(((nt, TWO_PI), (np, PI))):
        a = axdata(ex, h, k)
        p.ensure(f"axis {k}", z3.And(a[0] == n, a[1] == 0, a[2] == hi))
    last = at(ex, b, "m_last_phi")
    p.ensure("last centre", last == (R_(np) - z3.Q(1, 2)) * PI / R_(np))
    ax = h.f["m_axes"].get(iv(1))
    phi = p.real("phi")
    p.require(z3.And(phi >= 0, phi <= PI))
    used = z3.If(phi < last, phi, last)
    p.lemma("angle used is on the axis", z3.And(used >= 0, used < PI))
    bin_ = ex.method(ax, "bin", ex.alloc(used))
    own = ex.method(ax, "bin", ex.alloc(phi))
    lastb = ex.method(ax, "bin", ex.alloc(last))
    p.ensure("phi = pi is counted in the last bin", z3.Implies(phi == PI, bin_ == lastb))
    p.ensure("the last centre is in the last bin", lastb == np - 1)
    p.ensure("every other angle in its own bin", z3.Implies(phi < PI, bin_ == own))


def direction(mode, nl, ori, qori):
    """the documented direction of bond k"""
    def f(k):
        v, o, q = nl.vector(k), ori(nl.point(k)), qori(nl.query(k))
        if mode == "bod":
            return v
        if mode == "lbod":
            return ROT(qconj(o), v)
        if mode == "obcd":
            return ROT(q, ROT(qconj(o), v))
        return ROT(qconj(o), ROT(q, vec(rv(0), rv(0), rv(1))))
    return f


def mkacc(mode):
    def f(p):
        ex = p.ex
        b, nt, np = bo(p, mode)
        use_rotate(ex)
        nl = neighbor_list(p)
        nq = neighbor_query(p)
        tot = nt * np
        h, bc, old = local_counts(p, b, tot)
        fc, nqp = p.nat("frames"), p.nat("nqp")
        ex.write(Ptr(b.loc, ("m_frame_counter",)), fc)
        ex.write(Ptr(b.loc, ("m_reduce",)), p.bool("pending"))
        po, poa = arr_ptr(ex, "orientations", nl.np, "quat<float>")
        qo, qoa = arr_ptr(ex, "query_orientations", nl.nq, "quat<float>")
        ex.method(b, "accumulate", ex.alloc(nq.ptr), po, NULL, qo, nqp, ex.alloc(nl.ptr), ex.alloc(UNDEF))
        p.not_thrown()
        d = direction(mode, nl, lambda i: at(ex, poa, i), lambda i: at(ex, qoa, i))
        ax = [axdata(ex, at(ex, b, "m_histogram"), k) for k in range(2)]
        last = at(ex, b, "m_last_phi")

        def angles(k):
            v = d(k)
            x, y, z = comps(v)
            c = fdiv(z, sqrt(norm2(v)))
            c = z3.If(c < 1, c, rv(1))
            phi = ACOS(simp(z3.If(c > -1, c, rv(-1))))
            return modp(ATAN2(y, x), TWO_PI), z3.If(last < phi, last, phi)
        j = p.int("j")
        p.require(z3.And(j >= 0, j < tot, tot < OVF))
        p.ensure("counts: every bond once", at(ex, bc, "flat", j) == old.get(j) + SUM(nl.n, lambda k: z3.If(inbin(ax, angles(k), j), 1, 0)))
        p.ensure("frame counted", at(ex, b, "m_frame_counter") == fc + 1)
        p.ensure("reduction pending", at(ex, b, "m_reduce"))
        p.ensure("number of points", at(ex, b, "m_n_points") == nq.np)
        p.ensure("number of query points", at(ex, b, "m_n_query_points") == nqp)
        p.eq("box", at(ex, b, "m_box"), nq.box)
        p.reach()
    f.__name__ = "accumulate_" + mode
    f.__doc__ = "every bond adds one to the bin of its azimuth and polar angle in the documented frame; nothing else changes"
    return f


for _m in MODES:
    proof(TU, sizes=["n_theta", "n_phi", "nl_bonds"])(mkacc(_m))


@proof(TU, sizes=["n_theta", "n_phi", "T"])
def reduce(p):
    """the diagram is the count over the solid angle of the bin and the number of frames"""
    ex = p.ex
    b, nt, np = bo(p, "bod")
    T = p.size("T")
    f_ = thread_items(p, b, "m_local_histograms", T, nt * np)
    nf = p.nat("nf")
    p.require(nf >= 1)
    ex.write(Ptr(b.loc, ("m_frame_counter",)), nf)
    it, ip = p.int("i"), p.int("k")
    p.require(z3.And(it >= 0, it < nt, ip >= 0, ip < np))
    i = rowmajor([nt, np], [it, ip])
    p.require(z3.And(i >= 0, i < nt * np))       # (P04: index_2d)
    ex.write(Ptr(b.loc, ("m_reduce",)), TRUE)
    stale(p, b, "m_bo_array")
    r = ex.method(b, "getBondOrder")
    p.not_thrown()
    cnt = SUM(T, lambda t: f_(t, i))
    p.ensure("bin counts", at(ex, counts_of(p, at(ex, b, "m_histogram")), "flat", i) == cnt)
    lo, hi = R_(ip) * fdiv(PI, R_(np)), (R_(ip) + 1) * fdiv(PI, R_(np))
    sa = fdiv(TWO_PI, R_(nt)) * (cos_(canon(lo)) - cos_(canon(hi)))
    p.ensure("count over solid angle and frames", at(ex, r, "flat", i) == fdiv(fdiv(R_(cnt), sa), R_(nf)))
    p.ensure("nothing pending afterwards", Not(at(ex, b, "m_reduce")))
    undisturbed(p, b, [("m_local_histograms", f_)], T, i,
                lambda: (at(ex, ex.method(b, "getBondOrder"), "flat", i), at(ex, ex.method(b, "getBinCounts"), "flat", i)))
    p.reach()


@proof(TU, sizes=["n_theta", "n_phi", "T"])
def reset(p):
    """reset forgets every earlier frame"""
    ex = p.ex
    b, nt, np = bo(p, "bod")
    T = p.size("T")
    tot = nt * np
    thread_items(p, b, "m_local_histograms", T, tot)
    ex.write(Ptr(b.loc, ("m_frame_counter",)), p.nat("nf"))
    ex.write(Ptr(b.loc, ("m_reduce",)), FALSE)
    i, t = p.int("i"), p.int("t")
    p.require(z3.And(i >= 0, i < tot))
    ex.method(b, "reset")
    p.not_thrown()
    p.ensure("no frames", at(ex, b, "m_frame_counter") == 0)
    p.ensure("reduction pending", at(ex, b, "m_reduce"))
    p.ensure("counts", at(ex, counts_of(p, at(ex, b, "m_histogram")), "flat", i) == 0)
    p.ensure("diagram", at(ex, at(ex, b, "m_bo_array"), "flat", i) == 0)
    h = at(ex, b, "m_local_histograms", "m_local_histograms", "items").get(t)
    p.ensure("every thread's counts", z3.Implies(z3.And(t >= 0, t < T), at(ex, h.f["m_bin_counts"], "flat", i) == 0))
    p.reach()
