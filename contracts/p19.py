"""P19: angular separations and local bond projections."""
from .lib import *

ANG = "environment/AngularSeparation.cc"
LBP = "environment/LocalBondProjection.cc"
ASSUMPTIONS = ["acos is uninterpreted except acos(1) = 0 and that it is between 0 and pi on [-1, 1]"]

SEP = z3.Function("separation", *([R] * 8), R)
MINSEP = z3.Function("min_separation", *([R] * 8), R)
MAXPROJ = z3.Function("max_projection", *([R] * 6), R)


def q4(q):
    return [to_real(x) for x in (q.f["s"], *comps(q.f["v"]))]


def qmul(a, b):
    """the product of quaternions (s, x, y, z)"""
    return (a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + b[0] * a[1] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] + b[0] * a[2] + a[3] * b[1] - a[1] * b[3],
            a[0] * b[3] + b[0] * a[3] + a[1] * b[2] - a[2] * b[1])


def conj4(a):
    return (a[0], -a[1], -a[2], -a[3])


def clamp1(x):
    return z3.If(x > 1, rv(1), z3.If(x < -1, rv(-1), x))


def dot4(a, b):
    return sum(x * y for x, y in zip(a, b))


def a_quat(p, n):
    return Struct("quat<float>", {"s": p.real(n + "s"), "v": vec(*[p.real(n + c) for c in "xyz"])})


@proof(ANG)
def separation(p):
    """the angle of the rotation between two orientations: 2 acos(q . r), which does not change when both are rotated,
    from the left or from the right, and is zero for equal orientations"""
    ex = p.ex
    r, q, u = a_quat(p, "r"), a_quat(p, "q"), a_quat(p, "u")
    th = ex.func("computeSeparationAngle", ex.alloc(r), ex.alloc(q))
    p.not_thrown()
    R4, Q4, U4 = q4(r), q4(q), q4(u)
    d = clamp1(dot4(Q4, R4))
    p.ensure("twice the arc cosine of the scalar product", th == 2 * ACOS(d))
    unit = dot4(U4, U4) == 1
    p.ensure("unchanged by a common rotation from the left", z3.Implies(unit, dot4(qmul(U4, Q4), qmul(U4, R4)) == dot4(Q4, R4)))
    p.ensure("unchanged by a common rotation from the right", z3.Implies(unit, dot4(qmul(Q4, U4), qmul(R4, U4)) == dot4(Q4, R4)))
    p.ensure("equal orientations: the scalar product is one", z3.Implies(unit, clamp1(dot4(U4, U4)) == 1))
    p.reach()


def sep_contract(e, a, this):
    r, q = q4(e.rd(a[0])), q4(e.rd(a[1]))
    return SEP(*[canon(x) for x in (*r, *q)])


def extremum(p, n, M, c, start, le, nm):
    """the fold M is the extreme value of start and the c(i): by induction from its recursive definition"""
    if p.concrete is not None:
        return
    k, i = z3.FreshConst(I, "k"), z3.FreshConst(I, "i")
    m, m1, ck, ci, st = [z3.Real(f"{nm}_{x}") for x in ("before", "after", "value", "earlier", "start")]
    step = m1 == z3.If(le(m, ck), m, ck)
    p.ensure(f"lemma {nm}: is at most the new value", z3.Implies(step, le(m1, ck)))
    p.ensure(f"lemma {nm}: keeps what held", z3.Implies(z3.And(step, le(m, ci)), le(m1, ci)))
    p.ensure(f"lemma {nm}: is one of the values", z3.Implies(step, Or(m1 == m, m1 == ck)))


@proof(ANG, sizes=["n"])
def min_separation(p):
    """computeMinSeparationAngle: the smallest separation of r from q and from q conj(E_0) E_i over all i"""
    ex = p.ex
    ex.contracts["computeSeparationAngle"] = sep_contract
    n = p.size("n", 1)
    r, q = a_quat(p, "r"), a_quat(p, "q")
    e, _ = arr_ptr(ex, "equiv", n, "quat<float>")
    res = ex.func("computeMinSeparationAngle", ex.alloc(r), ex.alloc(q), e, n)
    p.not_thrown()
    E = lambda i: q4(elem(ex, Ptr(e.loc, (i,))))
    sep = lambda a: SEP(*[canon(x) for x in (*q4(r), *a)])
    c = lambda i: sep(qmul(qmul(q4(q), conj4(E(iv(0)))), E(i)))
    M = lambda k: MINF(k, c, sep(q4(q)))
    p.ensure("the smallest of the candidates", res == M(n))
    extremum(p, n, M, c, sep(q4(q)), lambda x, y: x <= y, "smallest")
    p.reach()


def use_minsep(p, e, n):
    def con(x, a, this):
        x.oblige(f"all equivalent orientations are used in {x.cur()}", z3.And(z3.BoolVal(same(a[2], e)), x.rd(a[3]) == n), "pre")
        return MINSEP(*[canon(y) for y in (*q4(x.rd(a[0])), *q4(x.rd(a[1])))])
    p.ex.contracts["computeMinSeparationAngle"] = con


def use_walk(p, nl):
    """find_first_index(i) is the first bond of the points i and later (proved in P06: find_first)"""
    q_sorted(p, nl)
    seg_axioms(p, nl)
    p.ex.contracts["NeighborList::find_first_index"] = lambda e, a, this: nl.seg(to_int(e.rd(a[0])))


@proof(ANG, sizes=["nl_bonds", "nqp"])
def neighbors(p):
    """for each bond the smallest separation of the orientations of its query point and its point"""
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    nq = neighbor_query(p)
    use_walk(p, nl)
    nqp, ne = p.size("nqp", 1), p.size("ne", 1)
    qps, _ = arr_ptr(ex, "qpoints", nqp)
    o, _ = arr_ptr(ex, "orientations", nq.np, "quat<float>")
    qo, _ = arr_ptr(ex, "query_orientations", nqp, "quat<float>")
    eq, _ = arr_ptr(ex, "equiv", ne, "quat<float>")
    use_default_nlist(p, nl, nq, qps, nqp)
    use_minsep(p, eq, ne)
    a = ex.alloc(ex.default("freud::environment::AngularSeparationNeighbor"))

    def want(b):
        return MINSEP(*[canon(y) for y in (*q4(elem(ex, Ptr(qo.loc, (nl.query(b),)))), *q4(elem(ex, Ptr(o.loc, (nl.point(b),)))))])
    ang = lambda b: at(ex, at(ex, a, "m_angles"), "flat", b)

    def cursor(v):
        if v.depth == 0:
            return v["bond"] == nl.seg(v.k)
        return None
    t = z3.FreshConst(I, "t")

    def done(v):
        if v.depth == 0:
            return FORALL([t], z3.Implies(z3.And(t >= 0, t < nl.n), z3.Implies(nl.query(t) < v.k, ang(t) == want(t))))
    ex.invariants["compute"] = [cursor, done]
    ex.method(a, "compute", ex.alloc(nq.ptr), o, qps, qo, nqp, eq, ne, ex.alloc(nl.ptr), ex.alloc(UNDEF))
    p.not_thrown()
    b = p.int("b")
    p.require(z3.And(b >= 0, b < nl.n))
    p.ensure("one angle per bond", at(ex, at(ex, a, "m_angles"), "shape", iv(0)) == nl.n)
    p.ensure("angle of the bond", ang(b) == want(b))
    p.eq("the list is stored", at(ex, a, "m_nlist"), nl.ptr)
    p.reach()


@proof(ANG, sizes=["np", "ng"])
def global_(p):
    """for each pair the smallest separation of the orientation from the global orientation"""
    ex = p.ex
    n, ng, ne = p.size("np"), p.size("ng"), p.size("ne", 1)
    o, _ = arr_ptr(ex, "orientations", n, "quat<float>")
    g, _ = arr_ptr(ex, "global", ng, "quat<float>")
    eq, _ = arr_ptr(ex, "equiv", ne, "quat<float>")
    use_minsep(p, eq, ne)
    a = ex.alloc(ex.default("freud::environment::AngularSeparationGlobal"))
    ex.method(a, "compute", g, ng, o, n, eq, ne)
    p.not_thrown()
    i, j = p.int("i"), p.int("j")
    p.require(z3.And(i >= 0, i < n, j >= 0, j < ng))
    m = at(ex, a, "m_angles")
    p.ensure("shape", z3.And(at(ex, m, "shape", iv(0)) == n, at(ex, m, "shape", iv(1)) == ng))
    w = MINSEP(*[canon(y) for y in (*q4(elem(ex, Ptr(o.loc, (i,)))), *q4(elem(ex, Ptr(g.loc, (j,)))))])
    p.ensure("angle of the pair", at(ex, m, "nest", i, j) == w)
    p.reach()


# ---------------------------------------------------------------- projections
@proof(LBP, sizes=["n"])
def max_projection(p):
    """computeMaxProjection: the largest projection on the bond of the vector and its images under conj(E_0) E_i"""
    ex = p.ex
    use_rotate(ex)
    n = p.size("n", 1)
    v, b = [vec(*[p.real(m + c) for c in "xyz"]) for m in "vb"]
    e, _ = arr_ptr(ex, "equiv", n, "quat<float>")
    res = ex.func("computeMaxProjection", ex.alloc(v), ex.alloc(b), e, n)
    p.not_thrown()
    E = lambda i: q4(elem(ex, Ptr(e.loc, (i,))))
    dot = lambda a, c: sum(x * y for x, y in zip(comps(a), comps(c)))

    def c(i):
        r = qmul(conj4(E(iv(0))), E(i))
        return dot(ROT(Struct("quat<float>", {"s": r[0], "v": vec(*r[1:])}), v), b)
    M = lambda k: MAXF(k, c, dot(v, b))
    p.ensure("the largest of the candidates", res == M(n))
    extremum(p, n, M, c, dot(v, b), lambda x, y: x >= y, "largest")
    p.reach()


@proof(LBP, sizes=["nl_bonds", "nqp", "nproj"])
def projections(p):
    """for each bond and vector the largest projection of the bond seen from its point, and that over the bond's length"""
    ex = p.ex
    use_nlist(ex)
    use_rotate(ex)
    nl = neighbor_list(p)
    nq = neighbor_query(p)
    use_walk(p, nl)
    nqp, ne, nproj = p.size("nqp", 1), p.size("ne", 1), p.size("nproj", 1)
    qps, _ = arr_ptr(ex, "qpoints", nqp)
    o, _ = arr_ptr(ex, "orientations", nq.np, "quat<float>")
    pv, _ = arr_ptr(ex, "projection_vectors", nproj)
    eq, _ = arr_ptr(ex, "equiv", ne, "quat<float>")
    use_default_nlist(p, nl, nq, qps, nqp)

    def con(x, a, this):
        x.oblige(f"all equivalent orientations are used in {x.cur()}", z3.And(z3.BoolVal(same(a[2], eq)), x.rd(a[3]) == ne), "pre")
        return MAXPROJ(*[canon(y) for y in (*comps(x.rd(a[0])), *comps(x.rd(a[1])))])
    ex.contracts["computeMaxProjection"] = con
    a = ex.alloc(ex.default("freud::environment::LocalBondProjection"))

    def want(b, k):
        loc = ROT(qconj(elem(ex, Ptr(o.loc, (nl.point(b),)))), nl.vector(b))
        return MAXPROJ(*[canon(y) for y in (*comps(elem(ex, Ptr(pv.loc, (k,)))), *comps(loc))])
    out = lambda f, b, k: at(ex, at(ex, a, f), "nest", b, k)
    t, s = z3.FreshConst(I, "t"), z3.FreshConst(I, "s")

    def cursor(v):
        if v.depth == 0:
            return v["bond"] == nl.seg(v.k)

    def done(f, w):
        def inv(v):
            if v.depth == 0:
                return FORALL([t, s], z3.Implies(z3.And(t >= 0, t < nl.n, s >= 0, s < nproj), z3.Implies(nl.query(t) < v.k, out(f, t, s) == w(t, s))))
        return inv
    W = {"m_local_bond_proj": want, "m_local_bond_proj_norm": lambda b, k: fdiv(want(b, k), nl.distance(b))}
    ex.invariants["compute"] = [cursor] + [done(f, w) for f, w in W.items()]
    ex.method(a, "compute", ex.alloc(nq.ptr), o, qps, nqp, pv, nproj, eq, ne, ex.alloc(nl.ptr), ex.alloc(UNDEF))
    p.not_thrown()
    b, k = p.int("b"), p.int("k")
    p.require(z3.And(b >= 0, b < nl.n, k >= 0, k < nproj))
    for f, w in W.items():
        p.ensure(f"{f}: shape", z3.And(at(ex, at(ex, a, f), "shape", iv(0)) == nl.n, at(ex, at(ex, a, f), "shape", iv(1)) == nproj))
        p.ensure(f"{f}: value", out(f, b, k) == w(b, k))
    p.eq("the list is stored", at(ex, a, "m_nlist"), nl.ptr)
    p.reach()
