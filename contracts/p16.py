"""P16: cluster properties."""
from .lib import *
from vc.exec import DEFAULT

TU = "cluster/ClusterProperties.cc"
ASSUMPTIONS = ["Box::centerOfMass is used by its contract: a function of the box and of the sums over the points it is given of the mass, and of "
               "the mass times a function of the point (proved in P02: center_of_mass); Box::wrap by its contract (P01)",
               "std::max_element returns the first largest element"]
PHASE = [z3.Function(f"phase{q}", *([R] * 6), B, *([R] * 3), R) for q in range(6)]     # cos and sin of the three fractional coordinates
COM = [z3.Function(f"com{c}", *([R] * 6), B, B, B, B, *([R] * 7), R) for c in "xyz"]


def boxargs(b):
    L, P = b.f["m_L"], b.f["m_periodic"]
    return [L.f["x"], L.f["y"], L.f["z"], b.f["m_xy"], b.f["m_xz"], b.f["m_yz"], b.f["m_2d"]], [P.f["x"], P.f["y"], P.f["z"]]


def com_of(b, total, sums):
    a, per = boxargs(b)
    return vec(*[f(*[simp(x) for x in (*a, *per, total, *sums)]) for f in COM])


def phase(b, q, v):
    return PHASE[q](*[simp(x) for x in (*boxargs(b)[0], *comps(v))])


def com_contract(ex, args, this):
    pts, n = ex.rd(args[0]) if not isinstance(args[0], (Ptr, PIte)) else args[0], to_int(ex.rd(args[1]))
    ms = args[2] if len(args) > 2 and args[2] is not DEFAULT else NULL
    b = ex.read(this)
    pt = lambda m: ex.read(ex.padd(pts, m))
    mass = (lambda m: rv(1)) if isinstance(ms, Null) else (lambda m: to_real(ex.read(ex.padd(ms, m))))
    return com_of(b, SUM(n, mass), [SUM(n, lambda m: mass(m) * phase(b, q, pt(m))) for q in range(6)])


def properties(p, massive):
    ex = p.ex
    use_wrap(ex)
    nq = neighbor_query(p, np=p.size("n", 1))
    n = nq.np
    idx, ia = arr_ptr(ex, "cluster", n, "unsigned int")
    ms, ma = arr_ptr(ex, "mass", n, "float")
    c = lambda i: at(ex, ia, i)
    k = z3.FreshConst(I, "k")
    ex.fact(z3.ForAll([k], z3.And(c(k) >= 0, c(k) < 0x7fffffff), patterns=[c(k)]))
    o = ex.alloc(ex.default("freud::cluster::ClusterProperties"))
    m = (lambda i: at(ex, ma, i)) if massive else (lambda i: rv(1))
    pos = lambda i: ex.read(Ptr(nq.points.loc, (i,)))
    Rk = ranks(p, c)
    ex.contracts["Box::centerOfMass"] = com_contract

    def members(v):
        """the points of each cluster are listed in order"""
        pts, mss = v["cluster_points"], v["cluster_point_masses"]
        i = z3.FreshConst(I, "i")
        if not hasattr(v, "fills"):
            # (the loop that fills the lists)
            v.fills = contains(pts.get(i).n, [v.k])
        if not v.fills:
            return None
        l, g = pts.get(c(i)), mss.get(c(i))
        r = Rk(i, c(i))
        x = pos(i)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.k), z3.And(l.get(r).f["x"] == x.f["x"], l.get(r).f["y"] == x.f["y"], l.get(r).f["z"] == x.f["z"],
                                                                         g.get(r) == m(i))))
    ex.invariants["compute"] = [members]
    ex.method(o, "compute", ex.alloc(nq.ptr), idx, ms if massive else NULL)
    p.not_thrown()
    j = p.int("j")
    for f in ("sizes", "masses", "centers", "centers_of_mass", "moments_of_inertia", "gyrations"):
        p.ensure(f"one entry of {f} per cluster", at(ex, at(ex, o, "m_cluster_" + f), "shape", iv(0)) == at(ex, at(ex, o, "m_cluster_sizes"), "shape", iv(0)))
    nc = at(ex, at(ex, o, "m_cluster_sizes"), "shape", iv(0))
    p.ensure("as many entries as the largest index asks for", z3.Implies(z3.And(j >= 0, j < n), c(j) < nc))
    p.require(z3.And(j >= 0, j < nc))
    return ex, nq, o, c, m, j, pos, Rk


def mine(o, ex, f, *i):
    return at(ex, at(ex, o, "m_cluster_" + f), "flat" if len(i) == 1 else "nest", *i)


def both(massive):
    w = "given" if massive else "unit"

    @proof(TU, sizes=["n"], name=f"centres_{w}_masses")
    def centres(p):
        """size, mass, centres"""
        ex, nq, o, c, m, j, pos, Rk = properties(p, massive)
        n = nq.np
        p.ensure("size", mine(o, ex, "sizes", j) == SUM(n, lambda i: z3.If(c(i) == j, 1, 0)))
        p.ensure("mass", mine(o, ex, "masses", j) == SUM(n, lambda i: z3.If(c(i) == j, m(i), rv(0))))
        loc = lambda nm: [x for x in ex.st.mem if x.startswith(nm + "#")]
        if p.concrete is None:
            (pl,), (ml,) = loc("cluster_points"), loc("cluster_point_masses")
            P_, M_ = ex.st.mem[pl].get(j), ex.st.mem[ml].get(j)
            use = grouped_sums(p, Rk, c, n)
            for q in range(6):
                use(f"phase {q}", j, lambda t: phase(nq.box, q, P_.get(t)), lambda i: phase(nq.box, q, pos(i)))
                if massive:
                    use(f"weighted phase {q}", j, lambda t: M_.get(t) * phase(nq.box, q, P_.get(t)), lambda i: m(i) * phase(nq.box, q, pos(i)))
            if massive:
                use("mass", j, lambda t: M_.get(t), m)
        one = lambda f: SUM(n, lambda i: z3.If(c(i) == j, f(i), rv(0)))
        for f, wt in (("centers", lambda i: rv(1)), ("centers_of_mass", m)):
            x = mine(o, ex, f, j)
            want = com_of(nq.box, one(wt), [one(lambda i: wt(i) * phase(nq.box, q, pos(i))) for q in range(6)])
            for d in "xyz":
                p.ensure(f"{f} {d}", x.f[d] == want.f[d])
        p.reach()

    @proof(TU, sizes=["n"], name=f"tensors_{w}_masses")
    def tensors(p):
        """gyration and inertia tensors"""
        ex, nq, o, c, m, j, pos, Rk = properties(p, massive)
        n = nq.np
        B_ = ex.alloc(nq.box)
        dist = lambda i, f: comps(WRAP(ex, B_, vec(*[a - b for a, b in zip(comps(pos(i)), comps(mine(o, ex, f, j)))])))
        size = mine(o, ex, "sizes", j)
        for a in range(3):
            for b in range(3):
                def moment(i):
                    d = dist(i, "centers_of_mass")
                    return m(i) * ((d[0] * d[0] + d[1] * d[1] + d[2] * d[2] if a == b else 0) - d[a] * d[b])
                p.ensure(f"inertia tensor {a}{b}", mine(o, ex, "moments_of_inertia", j, iv(a), iv(b)) == SUM(n, lambda i: z3.If(c(i) == j, moment(i), rv(0))))

                def gyr(i):
                    d = dist(i, "centers")
                    return d[a] * d[b]
                s = SUM(n, lambda i: z3.If(c(i) == j, gyr(i), rv(0)))
                p.ensure(f"gyration tensor {a}{b}", z3.Implies(size > 0, mine(o, ex, "gyrations", j, iv(a), iv(b)) * z3.ToReal(size) == s))
        p.reach()


both(True)
both(False)
