"""P21: hexatic, cubatic and rotational order parameters."""
from .lib import *

RAC = "order/RotationalAutocorrelation.cc"
HEX = "order/HexaticTranslational.cc"
ASSUMPTIONS = ["the neighbour list path of loopOverNeighborsIterator; the query path calls the same function on the same bonds (P09)",
               "cos, sin, atan2 are uninterpreted"]


@proof(HEX, sizes=["nl_bonds"])
def hexatic(p):
    """psi of each point: the (weighted) sum over its neighbours of exp(i k theta) over the total weight"""
    ex = p.ex
    use_nlist(ex)
    use_wrap(ex)
    k, weighted = p.nat("k"), p.bool("weighted")
    h = ex.new("Hexatic", k, weighted)
    nl = neighbor_list(p)
    use_cursor(p, nl)
    nq = neighbor_query(p)
    p.require(z3.And(nl.nq == nq.np, nl.np == nq.np))
    p.require(nq.box.f["m_2d"])
    ex.method(h, "compute", ex.alloc(nl.ptr), ex.alloc(nq.ptr), ex.alloc(UNDEF))
    p.not_thrown()
    i = p.int("i")
    p.require(z3.And(i >= 0, i < nq.np))

    def term(g):
        b = nl.seg(i) + g
        a, c = elem(ex, Ptr(nq.points.loc, (nl.point(b),))), elem(ex, Ptr(nq.points.loc, (i,)))
        d = WRAP(ex, ex.alloc(nq.box), vec(*[x - y for x, y in zip(comps(a), comps(c))]))
        th = z3.ToReal(k) * ATAN2(d.f["y"], d.f["x"])
        w = z3.If(weighted, nl.weight(b), rv(1))
        return w, w * cos_(th), w * sin_(th)
    psi = at(ex, at(ex, h, "m_psi_array"), "flat", i)
    n = nl.cnt(i)
    W = SUM(n, lambda g: term(g)[0])
    p.ensure("one value per point", at(ex, at(ex, h, "m_psi_array"), "shape", iv(0)) == nq.np)
    for q, c in ((1, "re"), (2, "im")):
        p.ensure(f"average of exp(i k theta), {c}", z3.Implies(W != 0, psi.f[c] == fdiv(SUM(n, lambda g: term(g)[q]), W)))
    p.reach()


@proof(HEX)
def hexatic_3d(p):
    """3D boxes are rejected"""
    ex = p.ex
    use_nlist(ex)
    h = ex.new("Hexatic", p.nat("k"), p.bool("weighted"))
    nl = neighbor_list(p)
    nq = neighbor_query(p)
    p.require(Not(nq.box.f["m_2d"]))
    ex.method(h, "compute", ex.alloc(nl.ptr), ex.alloc(nq.ptr), ex.alloc(UNDEF))
    p.ensure("throws", p.thrown())
    p.reach()


def chebyshev(l, s, n):
    """n^(l/2) U_l(s / sqrt(n)), the second-kind Chebyshev polynomial made homogeneous"""
    a, b = rv(1), 2 * s
    if l == 0:
        return a
    for _ in range(l - 1):
        a, b = b, 2 * s * b - n * a
    return b


def rotational(l):
    @proof(RAC, sizes=["N"], name=f"rotational_{l}")
    def go(p):
        """the autocorrelation of order l of a rotation by angle w is sin((l+1) w/2) / ((l+1) sin(w/2)), i.e.
        U_l(cos(w/2)) / (l+1) - in particular 1 for unchanged orientations - and the total is its mean"""
        ex = p.ex
        N = p.size("N", 1)
        r = ex.new("RotationalAutocorrelation", iv(l))
        a, _ = arr_ptr(ex, "ref", N, "quat<float>")
        b, _ = arr_ptr(ex, "cur", N, "quat<float>")
        ex.method(r, "compute", a, b, N)
        p.not_thrown()
        i = p.int("i")
        p.require(z3.And(i >= 0, i < N))

        def value(i):
            q, w = elem(ex, Ptr(a.loc, (i,))), elem(ex, Ptr(b.loc, (i,)))
            qs, ws = (q.f["s"], *comps(q.f["v"])), (w.f["s"], *comps(w.f["v"]))
            # scalar part of conj(q) w, and the squared norm
            return chebyshev(l, sum(x * y for x, y in zip(qs, ws)), sum(x * x for x in qs) * sum(x * x for x in ws)) / (l + 1)
        v = at(ex, at(ex, r, "m_RA_array"), "flat", i)
        p.ensure("one value per orientation", at(ex, at(ex, r, "m_RA_array"), "shape", iv(0)) == N)
        p.ensure("character of the rotation", v.f["re"] == value(i))
        p.ensure("is real", v.f["im"] == 0)
        p.ensure("total is the mean", ex.method(r, "getRotationalAutocorrelation") * z3.ToReal(N) == SUM(N, lambda i: at(ex, at(ex, r, "m_RA_array"), "flat", i).f["re"]))
        p.reach()


for _l in range(0, 7):
    rotational(_l)


# ---------------------------------------------------------------- cubatic
CUB = "order/Cubatic.cc"


def ix(i, j, k, l):
    return 27 * i + 9 * j + 3 * k + l


ALL4 = [(i, j, k, l) for i in range(3) for j in range(3) for k in range(3) for l in range(3)]


def iso(i, j, k, l):
    """2/5 (d_ij d_kl + d_ik d_jl + d_il d_jk)"""
    return z3.Q(2 * (int(i == j and k == l) + int(i == k and j == l) + int(i == l and j == k)), 5)


def data(t):
    return [simp(t.f["data"].get(iv(q))) for q in range(81)]


def quartic(v):
    """v_i v_j v_k v_l"""
    return [v[i] * v[j] * v[k] * v[l] for i, j, k, l in ALL4]


def axes_of(q):
    """the three axes rotated by q"""
    return [comps(ROT(q, vec(*[rv(int(a == c)) for c in range(3)]))) for a in range(3)]


def mine(q):
    """quartic tensor of an orientation: twice the sum over its axes"""
    t = [quartic(v) for v in axes_of(q)]
    return [2 * (a + b + c) for a, b, c in zip(*t)]


def cubatic(p):
    ex = p.ex
    use_rotate(ex)
    ti, tf, sc, n, seed = p.real("t_initial"), p.real("t_final"), p.real("scale"), p.size("replicates", 1), p.nat("seed")
    p.require(z3.And(ti >= tf, tf >= z3.Q(1, 1000), sc > 0, sc < 1, n < 0x7fffffff))
    c = ex.new("Cubatic", ti, tf, sc, n, seed)
    p.not_thrown("constructor accepts it")
    return c


@proof(CUB)
def cubatic_constructor(p):
    """bad parameters are rejected; the isotropic tensor and the axes"""
    ex = p.ex
    ti, tf, sc = p.real("t_initial"), p.real("t_final"), p.real("scale")
    c = ex.new("Cubatic", ti, tf, sc, p.nat("n"), p.nat("seed"))
    # (the bound 1e-6 is not exactly representable)
    p.require(z3.Or(tf >= z3.Q(1000001, 1000000000000), tf <= z3.Q(999999, 1000000000000)))
    p.ensure("throws exactly on bad parameters", p.thrown() == Not(z3.And(ti >= tf, tf >= z3.Q(1, 1000000), sc > 0, sc < 1)))
    p.require(Not(p.thrown()))
    p.ensure("isotropic tensor", z3.And(*[a == iso(*q) for a, q in zip(data(at(ex, c, "m_gen_r4_tensor")), ALL4)]))
    for a in range(3):
        p.ensure(f"axis {a}", z3.And(*[x == int(a == q) for q, x in enumerate(comps(at(ex, c, "m_system_vectors", iv(a))))]))
    p.reach()


@proof(CUB)
def tensors(p):
    """quartic tensor of a vector, contraction, order parameter"""
    ex = p.ex
    c = cubatic(p)
    v = ex.symbolic("v", "vec3<float>")
    t = ex.read(ex.new("tensor4", ex.alloc(v), typ="const vec3"))
    p.ensure("v_i v_j v_k v_l", z3.And(*[a == b for a, b in zip(data(t), quartic(comps(v)))]))
    q = ex.symbolic("q", "quat<float>")
    m = data(ex.method(c, "calcCubaticTensor", ex.alloc(q)))
    for n, (a, b, i) in enumerate(zip(m, mine(q), ALL4)):
        p.ensure(f"tensor of an orientation, {i}", a == b - iso(*i))
    x, y = ex.symbolic("x", "tensor4"), ex.symbolic("y", "tensor4")
    X, Y = (lambda k: x.f["data"].get(k)), (lambda k: y.f["data"].get(k))
    o = ex.method(c, "calcCubaticOrderParameter", ex.alloc(x), ex.alloc(y))
    p.ensure("order parameter", o == 1 - fdiv(SUM(iv(81), lambda k: (Y(k) - X(k)) * (Y(k) - X(k))), SUM(iv(81), lambda k: X(k) * X(k))))
    p.reach()


@proof(CUB, sizes=["N", "replicates"])
def global_tensor(p):
    """average of the particles' quartic tensors minus the isotropic tensor"""
    ex = p.ex
    c = cubatic(p)
    N = p.size("N", 1)
    ex.write(Ptr(c.loc, ("m_n",)), N)
    a, _ = arr_ptr(ex, "orientations", N, "quat<float>")
    g = data(ex.method(c, "calculateGlobalTensor", a))
    p.not_thrown()
    for n, i in enumerate(ALL4):
        p.ensure(f"component {i}", (g[n] + iso(*i)) * z3.ToReal(N) == SUM(N, lambda j: mine(elem(ex, Ptr(a.loc, (j,))))[n]))
    p.reach()
