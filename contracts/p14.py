"""P14: PMFTs histogram every bond in the documented local frame."""
from .lib import *

ASSUMPTIONS = ["the neighbour list path of loopOverNeighbors; the query path calls the same function on the same bonds (P09)",
               "cos, sin, atan2 are uninterpreted (cos even, sin odd)",
               "fewer than 2^32 - 1 bins in total (the overflow marker is not a bin)",
               "different multi-indices have different row-major positions (P04: index_injective)"]
TWO_PI = 2 * PI
R_ = z3.ToReal


def make(p, cls):
    ex = p.ex
    use_axis(ex)
    use_nlist(ex)
    use_modpos(ex)
    d = {"PMFTR12": 3, "PMFTXY": 2, "PMFTXYT": 3, "PMFTXYZ": 3}[cls]
    n = [p.size(f"n{k}", 1) for k in range(d)]
    for x in n:
        p.require(x < 0x7fffffff)
    if cls == "PMFTR12":
        m = [p.real("r_max")]
        lims = [(rv(0), m[0]), (rv(0), TWO_PI), (rv(0), TWO_PI)]
    else:
        m = [p.real(c + "_max") for c in ("xyz" if cls == "PMFTXYZ" else "xy")]
        lims = [(-x, x) for x in m] + ([(rv(0), TWO_PI)] if cls == "PMFTXYT" else [])
    for x in m:
        p.require(x > 0)
    r = ex.new(cls, *m, *n)
    p.not_thrown("constructor accepts it")
    h = at(ex, r, "m_histogram")
    for k in range(d):
        a = axdata(ex, h, k)
        p.ensure(f"axis {k}", z3.And(a[0] == n[k], a[1] == lims[k][0], a[2] == lims[k][1]))
    return r, n, m, d


def mkctor(cls):
    def f(p):
        ex = p.ex
        nm, nn = {"PMFTR12": (1, 3), "PMFTXY": (2, 2), "PMFTXYT": (2, 3), "PMFTXYZ": (3, 3)}[cls]
        m = [p.real(f"max{k}") for k in range(nm)]
        n = [p.nat(f"n{k}") for k in range(nn)]
        for x in n:
            p.require(x < 0x7fffffff)
        ex.new(cls, *m, *n)
        p.ensure("throws exactly on bad parameters", p.thrown() == Not(z3.And(*[x >= 1 for x in n], *[x >= 0 for x in m])))
    f.__name__ = "constructor_" + cls
    f.__doc__ = "bad parameters are rejected"
    return f


def rotate2(a, x, y):
    """(x, y) rotated by the angle a"""
    return cos_(a) * x - sin_(a) * y, sin_(a) * x + cos_(a) * y


def coords(cls, nl, ori, qori, eq):
    """the documented coordinates of bond k"""
    def xyz(k):
        return comps(nl.vector(k))

    if cls == "PMFTR12":
        # distance; angle of the point's direction relative to the bond; same for the query point with the reversed bond
        return lambda k: (nl.distance(k), modp(ori(nl.point(k)) - ATAN2(xyz(k)[1], xyz(k)[0]), TWO_PI),
                          modp(qori(nl.query(k)) - ATAN2(-xyz(k)[1], -xyz(k)[0]), TWO_PI))
    if cls == "PMFTXY":
        return lambda k: rotate2(-qori(nl.query(k)), xyz(k)[0], xyz(k)[1])
    if cls == "PMFTXYT":
        return lambda k: rotate2(-qori(nl.query(k)), xyz(k)[0], xyz(k)[1]) + (modp(ori(nl.point(k)) - ATAN2(-xyz(k)[1], -xyz(k)[0]), TWO_PI),)
    return lambda k, e: qrot(eq(e), qrot(qconj(qori(nl.query(k))), xyz(k)))


def mkacc(cls):
    def f(p):
        ex = p.ex
        r, n, m, d = make(p, cls)
        nl = neighbor_list(p)
        nq = neighbor_query(p)
        tot = n[0]
        for x in n[1:]:
            tot = tot * x
        h, bc, old = local_counts(p, r, tot)
        fc = p.nat("frames")
        ex.write(Ptr(r.loc, ("m_frame_counter",)), fc)
        ex.write(Ptr(r.loc, ("m_reduce",)), p.bool("pending"))
        p.require(nq.box.f["m_2d"] if cls != "PMFTXYZ" else Not(nq.box.f["m_2d"]))
        nqp = p.nat("nqp")
        A_ = ex.alloc(nq.ptr), ex.alloc(UNDEF)
        N_ = ex.alloc(nl.ptr)
        ety = "quat<float>" if cls == "PMFTXYZ" else "float"
        qo, qoa = arr_ptr(ex, "query_orientations", nl.nq, ety)
        qori = lambda i: at(ex, qoa, i)
        ori = eq = None
        if cls in ("PMFTR12", "PMFTXYT"):
            po, poa = arr_ptr(ex, "orientations", nl.np, "float")
            ori = lambda i: at(ex, poa, i)
            ex.method(r, "accumulate", A_[0], po, NULL, qo, nqp, nl.ptr, A_[1])
        elif cls == "PMFTXY":
            ex.method(r, "accumulate", A_[0], qo, NULL, nqp, nl.ptr, A_[1])
        else:
            ne = p.size("ne")
            p.require(ne < 0x7fffffff)
            eo, eoa = arr_ptr(ex, "equiv", ne, ety)
            eq = lambda i: at(ex, eoa, i)
            before = p.nat("before")
            ex.write(Ptr(r.loc, ("m_num_equiv_orientations",)), before)
            ex.method(r, "accumulate", A_[0], qo, NULL, nqp, eo, ne, nl.ptr, A_[1])
            p.ensure("throws exactly when the number of equivalent orientations changes", p.thrown() == z3.And(before != OVF, before != ne))
            p.require(Not(p.thrown()))
            p.ensure("number of equivalent orientations", at(ex, r, "m_num_equiv_orientations") == ne)
        p.not_thrown()
        hist = at(ex, r, "m_histogram")
        ax = [axdata(ex, hist, k) for k in range(d)]
        c = coords(cls, nl, ori, qori, eq)
        j = p.int("j")
        p.require(z3.And(j >= 0, j < tot, tot < OVF))
        new = at(ex, bc, "flat", j)
        if cls == "PMFTXYZ":
            p.ensure("counts: every bond once for every equivalent orientation",
                     new == old.get(j) + SUM(nl.n, lambda k: SUM(ne, lambda e: z3.If(inbin(ax, c(k, e), j), 1, 0))))
        else:
            p.ensure("counts: every bond once", new == old.get(j) + SUM(nl.n, lambda k: z3.If(inbin(ax, c(k), j), 1, 0)))
        p.ensure("frame counted", at(ex, r, "m_frame_counter") == fc + 1)
        p.ensure("reduction pending", at(ex, r, "m_reduce"))
        p.ensure("number of points", at(ex, r, "m_n_points") == nq.np)
        p.ensure("number of query points", at(ex, r, "m_n_query_points") == nqp)
        p.eq("box", at(ex, r, "m_box"), nq.box)
        p.reach()
    f.__name__ = "accumulate_" + cls
    f.__doc__ = "every bond adds one to the bin of its coordinates in the documented frame; nothing else changes"
    return f


def mkwrongdim(cls):
    def f(p):
        ex = p.ex
        r, n, m, d = make(p, cls)
        nl = neighbor_list(p, B=iv(0))
        nq = neighbor_query(p)
        a = ex.alloc(nq.ptr)
        o, q = p.nat("x"), NULL
        args = {"PMFTR12": [a, q, q, q, o, nl.ptr, ex.alloc(UNDEF)], "PMFTXYT": [a, q, q, q, o, nl.ptr, ex.alloc(UNDEF)],
                "PMFTXY": [a, q, q, o, nl.ptr, ex.alloc(UNDEF)], "PMFTXYZ": [a, q, q, o, q, iv(1), nl.ptr, ex.alloc(UNDEF)]}[cls]
        ex.method(r, "accumulate", *args)
        p.ensure("throws exactly for a box of the wrong dimension", p.thrown() == (nq.box.f["m_2d"] if cls == "PMFTXYZ" else Not(nq.box.f["m_2d"])))
    f.__name__ = "dimension_" + cls
    f.__doc__ = "2D PMFTs reject 3D boxes, PMFTXYZ rejects 2D boxes"
    return f


def mkreduce(cls):
    def f(p):
        ex = p.ex
        r, n, m, d = make(p, cls)
        tot = n[0]
        for x in n[1:]:
            tot = tot * x
        T = p.size("T")
        f_ = thread_items(p, r, "m_local_histograms", T, tot)
        V = p.real("V")
        ex.contracts["Box::getVolume"] = lambda e, a, this: V        # (P03)
        nqp, np, nf = p.nat("nqp"), p.nat("np"), p.nat("nf")
        p.require(z3.And(nqp >= 1, np >= 1, nf >= 1, V > 0))
        for k, v in (("m_n_query_points", nqp), ("m_n_points", np), ("m_frame_counter", nf)):
            ex.write(Ptr(r.loc, (k,)), v)
        norm = R_(nf) * R_(np)
        if cls == "PMFTXYZ":
            ne = p.nat("ne")
            p.require(ne >= 1)
            ex.write(Ptr(r.loc, ("m_num_equiv_orientations",)), ne)
            norm = norm * R_(ne)
        idx = [p.int(f"i{k}") for k in range(d)]
        for i, x in zip(idx, n):
            p.require(z3.And(i >= 0, i < x))
        i = rowmajor(n, idx)
        p.require(z3.And(i >= 0, i < tot))          # (P04: index_*d)
        ex.write(Ptr(r.loc, ("m_reduce",)), TRUE)
        stale(p, r, "m_pcf_array")
        pcf = ex.method(r, "getPCF")
        p.not_thrown()
        cnt = SUM(T, lambda t: f_(t, i))
        p.ensure("bin counts", at(ex, counts_of(p, at(ex, r, "m_histogram")), "flat", i) == cnt)
        # volume element of the bin, angles measured in turns
        if cls == "PMFTR12":
            vol = (R_(idx[0]) + z3.Q(1, 2)) * (m[0] / R_(n[0])) * (m[0] / R_(n[0])) * (TWO_PI / R_(n[1])) * (1 / R_(n[2]))
        else:
            vol = rv(1)
            for x, k in zip(m, n):
                vol = vol * (2 * x / R_(k))
            if cls == "PMFTXYT":
                vol = vol * (1 / R_(n[2]))
        vol = vol_inv(vol)
        got = at(ex, pcf, "flat", i) if cls != "PMFTR12" else at(ex, pcf, "flat", i)
        p.ensure("PCF is the count over bin volume, density, points and frames", got == R_(cnt) * fdiv(V, R_(nqp)) * fdiv(rv(1), norm) * vol)
        p.ensure("nothing pending afterwards", Not(at(ex, r, "m_reduce")))
        undisturbed(p, r, [("m_local_histograms", f_)], T, i,
                    lambda: (at(ex, ex.method(r, "getPCF"), "flat", i), at(ex, ex.method(r, "getBinCounts"), "flat", i)))
        p.reach()
    f.__name__ = "reduce_" + cls
    f.__doc__ = "PCF from the counts, for any number of threads and frames"
    return f


def vol_inv(v):
    """1/v with the solver's division read as multiplication by the inverse"""
    v = simp(v)

    def go(t):
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_DIV:
            return fdiv(go(t.arg(0)), go(t.arg(1)))
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD):
            ch = [go(x) for x in t.children()]
            r = ch[0]
            for x in ch[1:]:
                r = r * x if k == z3.Z3_OP_MUL else r + x
            return r
        return t
    return fdiv(rv(1), simp(go(v)))


def mkreset(cls):
    def f(p):
        ex = p.ex
        r, n, m, d = make(p, cls)
        tot = n[0]
        for x in n[1:]:
            tot = tot * x
        T = p.size("T")
        thread_items(p, r, "m_local_histograms", T, tot)
        ex.write(Ptr(r.loc, ("m_frame_counter",)), p.nat("nf"))
        ex.write(Ptr(r.loc, ("m_reduce",)), FALSE)
        if cls == "PMFTXYZ":
            ex.write(Ptr(r.loc, ("m_num_equiv_orientations",)), p.nat("ne"))
        i, t = p.int("i"), p.int("t")
        p.require(z3.And(i >= 0, i < tot))
        ex.method(r, "reset")
        p.not_thrown()
        p.ensure("no frames", at(ex, r, "m_frame_counter") == 0)
        p.ensure("reduction pending", at(ex, r, "m_reduce"))
        p.ensure("counts", at(ex, counts_of(p, at(ex, r, "m_histogram")), "flat", i) == 0)
        p.ensure("PCF", at(ex, at(ex, r, "m_pcf_array"), "flat", i) == 0)
        h = at(ex, r, "m_local_histograms", "m_local_histograms", "items").get(t)
        p.ensure("every thread's counts", z3.Implies(z3.And(t >= 0, t < T), at(ex, h.f["m_bin_counts"], "flat", i) == 0))
        if cls == "PMFTXYZ":
            p.ensure("number of equivalent orientations forgotten", at(ex, r, "m_num_equiv_orientations") == OVF)
        p.reach()
    f.__name__ = "reset_" + cls
    f.__doc__ = "reset forgets every earlier frame"
    return f


for c in ("PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ"):
    t = f"pmft/{c}.cc"
    s = [f"n{k}" for k in range(2 if c == "PMFTXY" else 3)]
    proof(t)(mkctor(c))
    proof(t)(mkwrongdim(c))
    proof(t, sizes=s + ["nl_bonds"] + (["ne"] if c == "PMFTXYZ" else []))(mkacc(c))
    proof(t, sizes=s + ["T"])(mkreduce(c))
    proof(t, sizes=s + ["T"])(mkreset(c))
