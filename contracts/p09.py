"""P09: bond fields; loops over a precomputed list and over a live query see the same bonds."""
from .lib import *

TU = "driver:drv_loop.cc"
ASSUMPTIONS = ["a per-point function's effect is abstracted as an arbitrary real contribution per bond, added up (an arbitrary commutative accumulation)",
               "a live query object returns for each query point a finite sequence of bonds through the iterator protocol (what the sequence is: P07, P08)"]
FORALL = z3.ForAll
TERM = 0xffffffff


def is_term(b):
    """the iterator's terminator: indices -1, everything else zero"""
    return z3.And(b.f["query_point_idx"] == TERM, b.f["point_idx"] == TERM, b.f["distance"] == 0, *[x == 0 for x in comps(b.f["vector"])])


@proof(TU)
def bond_fields(p):
    """a bond made from a vector has that vector's length as its distance and all other fields as given"""
    ex = p.ex
    q, i, w = p.nat("q"), p.nat("i"), p.real("w")
    v = ex.symbolic("v", "vec3<float>")
    b = ex.read(ex.new("NeighborBond", q, i, w, ex.alloc(v), nparams=4))
    p.not_thrown()
    p.ensure("distance is the length", z3.And(b.f["distance"] >= 0, b.f["distance"] * b.f["distance"] == norm2(v)))
    p.ensure("indices and weight", z3.And(b.f["query_point_idx"] == q, b.f["point_idx"] == i, b.f["weight"] == w))
    p.eq("vector", b.f["vector"], v)
    d = p.real("d")
    b = ex.read(ex.new("NeighborBond", q, i, d, w, ex.alloc(v), nparams=5))
    p.ensure("fields", z3.And(b.f["query_point_idx"] == q, b.f["point_idx"] == i, b.f["weight"] == w, b.f["distance"] == d))
    p.eq("vector as given", b.f["vector"], v)


# ---------------------------------------------------------------- per-point iteration over a list
def cursor(p):
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    q_sorted(p, nl)
    seg_axioms(p, nl)
    ex.contracts["NeighborList::find_first_index"] = lambda e, a, this: nl.seg(to_int(e.rd(a[0])))
    i = p.nat("i")
    p.require(i < TERM)
    return nl, i


def state(nl, i, g, o):
    """the state of the iterator of point i after g calls of next()"""
    s, B = nl.seg(i), nl.n
    cur, fin, ret = o.f["m_current_index"], o.f["m_finished"], o.f["m_returned_point_index"]
    least = lambda a, b: z3.If(a <= b, a, b)
    return z3.And(o.f["m_query_point_idx"] == i, cur == least(s + g, B), fin == Or(s + g > B, z3.And(g == 0, s == B)),
                  z3.Implies(z3.And(g == 0, s < B), ret == nl.query(s)),
                  z3.Implies(z3.And(g >= 1, s + g - 1 < B), ret == nl.query(s + g - 1)))


@proof(TU)
def cursor_start(p):
    """a new iterator of point i stands before the first of its bonds"""
    ex = p.ex
    nl, i = cursor(p)
    o = ex.new("NeighborListPerPointIterator", ex.alloc(nl.ptr), i)
    p.not_thrown()
    p.ensure("state before the first call", state(nl, i, iv(0), ex.read(o)))
    p.eq("iterates over the list given", ex.read(o).f["m_nlist"], nl.ptr)
    k = p.int("k")
    p.ensure("runs: bonds of the point", z3.Implies(z3.And(k >= 0, k < nl.cnt(i)), nl.query(nl.seg(i) + k) == i))
    p.reach()


def any_state(p, nl, i, g):
    ex = p.ex
    cls = "freud::locality::NeighborListPerPointIterator"
    o = ex.alloc(Struct(cls, {"m_query_point_idx": i, "m_nlist": nl.ptr, "m_current_index": p.nat("cur"), "m_returned_point_index": p.nat("ret"),
                              "m_finished": p.bool("fin")}), "it")
    p.require(z3.And(g >= 0, state(nl, i, g, ex.read(o))))
    return o


@proof(TU)
def cursor_next(p):
    """the call of next() numbered g (from 0, up to the first one after the last bond) returns bond g of the point
    (beyond the last bond: the next point's bond or the terminator, which end() tells apart)"""
    ex = p.ex
    nl, i = cursor(p)
    g = p.nat("g")
    o = any_state(p, nl, i, g)
    p.require(g <= nl.cnt(i))
    b = ex.method(o, "next")
    p.not_thrown()
    at_ = nl.seg(i) + g
    pre = at_ < nl.n
    for nm, got, want in zip(("query point", "point", "distance", "weight"), [b.f[x] for x in ("query_point_idx", "point_idx", "distance", "weight")],
                             (nl.query(at_), nl.point(at_), nl.distance(at_), nl.weight(at_))):
        p.ensure(f"bond in order: {nm}", z3.Implies(pre, got == want))
    for c in "xyz":
        p.ensure(f"bond in order: vector {c}", z3.Implies(pre, b.f["vector"].f[c] == nl.vector(at_).f[c]))
    p.ensure("terminator at the end of the list", z3.Implies(Not(pre), is_term(b)))
    p.ensure("state after the call", state(nl, i, g + 1, ex.read(o)))
    p.reach()


@proof(TU)
def cursor_end(p):
    """after at least one call of next(), end() says whether the last call went beyond the point's bonds"""
    ex = p.ex
    nl, i = cursor(p)
    g = p.nat("g")
    o = any_state(p, nl, i, g)
    p.require(z3.And(g >= 1, g <= nl.cnt(i) + 1))
    before = ex.read(o)
    e = ex.method(o, "end")
    p.not_thrown()
    p.ensure("ended exactly beyond the last bond", to_bool(e) == (g > nl.cnt(i)))
    p.eq("end() changes nothing", ex.read(o), before)
    p.reach()


# ---------------------------------------------------------------- loops over a list and over a query
EFFECT = z3.Function("effect", I, I, R, R, R, R, R, R)


def effect(b):
    f = b.f
    return EFFECT(f["query_point_idx"], f["point_idx"], f["distance"], f["weight"], *comps(f["vector"]))


def use_functor(p):
    """an arbitrary function applied to bonds: its effect is an arbitrary contribution to an accumulator"""
    ex = p.ex
    s0 = p.real("before")
    acc = ex.alloc(s0, "acc")

    def call(e, a, this):
        e.write(acc, e.read(acc) + effect(e.rd(a[0])))
    ex.contracts["PairFn::operator()"] = call
    return acc, s0, ex.alloc(Struct("freud_verif_driver::PairFn", {}), "f")


def live_query(p):
    """an arbitrary query object: for query point i it returns the bonds live(i, 0) .. live(i, n(i) - 1)"""
    ex = p.ex
    o = Obj()
    o.nq = neighbor_query(p)
    o.n = z3.Function("live_n", I, I)
    f = [z3.Function("live_" + c, I, I, I if c in ("q", "i") else R) for c in ("q", "i", "d", "w", "x", "y", "z")]
    i, k = z3.FreshConst(I, "i"), z3.FreshConst(I, "k")
    ex.fact(FORALL([i], o.n(i) >= 0, patterns=[o.n(i)]))
    ex.fact(FORALL([i, k], z3.And(f[0](i, k) >= 0, f[1](i, k) >= 0), patterns=[f[0](i, k), f[1](i, k)]))
    o.bond = lambda i, k: Struct("freud::locality::NeighborBond", {"query_point_idx": f[0](i, k), "point_idx": f[1](i, k), "distance": f[2](i, k),
                                                                   "weight": f[3](i, k), "vector": vec(f[4](i, k), f[5](i, k), f[6](i, k))})
    cls = "freud::locality::NeighborQueryPerPointIterator"
    o.points = None

    def single(e, a, this):
        i = to_int(e.rd(a[1]))
        if o.points is not None:
            e.oblige("query point of the per-point query", z3.And(*[x == y for x, y in zip(comps(e.rd(a[0])), comps(at(e, o.points, i)))]), "pre")
        it = Struct(cls, {"m_query_point_idx": i, "g": iv(0)})
        return e.alloc(it, "it")

    def nxt(e, a, this):
        it = e.read(this)
        i, g = it.f["m_query_point_idx"], it.f["g"]
        e.oblige(f"precondition of next: not ended in {e.cur()}", g <= o.n(i), "pre")
        e.write(Ptr(this.loc, this.path + ("g",)), simp(g + 1))
        return o.bond(i, g)
    ex.contracts["NeighborQuery::querySingle"] = single
    ex.contracts["NeighborQueryPerPointIterator::next"] = nxt
    ex.contracts["NeighborQueryPerPointIterator::end"] = lambda e, a, this: e.read(this).f["g"] > o.n(e.read(this).f["m_query_point_idx"])
    ex.contracts["NeighborQuery::validateQueryArgs"] = lambda e, a, this: None
    return o


@proof(TU, sizes=["nl_bonds"])
def pairs_of_list(p):
    """loopOverNeighbors over a given list applies the function exactly once to each of its bonds, with all its fields"""
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    acc, s0, f = use_functor(p)
    nq = neighbor_query(p)
    ex.func("loopOverNeighbors", ex.alloc(nq.ptr), NULL, p.nat("nqp"), ex.alloc(UNDEF), ex.alloc(nl.ptr), f, TRUE)
    p.not_thrown()
    p.ensure("every bond once", ex.read(acc) == s0 + SUM(nl.n, lambda k: effect(bond(nl, k))))
    p.reach()


@proof(TU, sizes=["nqp"])
def pairs_of_query(p):
    """loopOverNeighbors over a live query applies the function exactly once to each bond of each query point"""
    ex = p.ex
    use_nlist(ex)
    acc, s0, f = use_functor(p)
    o = live_query(p)
    nqp = p.size("nqp")
    qps, o.points = arr_ptr(ex, "qpoints", nqp)
    ex.func("loopOverNeighbors", ex.alloc(o.nq.ptr), qps, nqp, ex.alloc(UNDEF), ex.alloc(NULL), f, TRUE)
    per = o.nq.box.f["m_periodic"].f
    p.ensure("throws exactly in non-periodic boxes", p.thrown() == Not(z3.And(*per.values())))
    p.require(Not(p.thrown()))
    p.ensure("every bond once", ex.read(acc) == s0 + SUM(nqp, lambda i: SUM(o.n(i), lambda k: effect(o.bond(i, k)))))
    p.reach()


@proof(TU, sizes=["nl_bonds", "nqp"])
def points_of_list(p):
    """loopOverNeighborsIterator and loopOverNeighborListIterator over a given list call the function exactly once per
    query point, with an iterator that stands before the first of that point's bonds"""
    ex = p.ex
    nl, _ = cursor(p)
    per_point = z3.Function("point_effect", I, R)
    for fn in ("loopOverNeighborsIterator", "loopOverNeighborListIterator"):
        s0 = p.real("before")
        acc = ex.alloc(s0, "acc")

        def call(e, a, this):
            i, it = to_int(e.rd(a[0])), e.rd(a[1])
            e.oblige("iterator given to the function: before the first bond of the point", state(nl, i, iv(0), e.read(it)), "pre")
            e.oblige("iterator given to the function: of the list given", z3.BoolVal(same(e.read(it).f["m_nlist"], nl.ptr)), "pre")
            e.write(acc, e.read(acc) + per_point(i))
        ex.contracts["PointFn::operator()"] = call
        f = ex.alloc(Struct("freud_verif_driver::PointFn", {}), "f")
        if fn == "loopOverNeighborsIterator":
            n = p.size("nqp")
            p.require(n < TERM)
            ex.func(fn, ex.alloc(neighbor_query(p).ptr), NULL, n, ex.alloc(UNDEF), ex.alloc(nl.ptr), f, TRUE)
        else:
            n = nl.nq
            p.require(n < TERM)
            ex.func(fn, ex.alloc(nl.ptr), f, TRUE)
        p.not_thrown()
        p.ensure(f"{fn}: every query point once", ex.read(acc) == s0 + SUM(n, per_point))
    p.reach()


@proof(TU, sizes=["nqp"])
def points_of_query(p):
    """loopOverNeighborsIterator over a live query calls the function exactly once per query point, with a new iterator of
    that point's query"""
    ex = p.ex
    use_nlist(ex)
    o = live_query(p)
    per_point = z3.Function("point_effect", I, R)
    s0 = p.real("before")
    acc = ex.alloc(s0, "acc")

    def call(e, a, this):
        i, it = to_int(e.rd(a[0])), e.read(e.rd(a[1]))
        e.oblige("iterator given to the function", z3.And(it.f["m_query_point_idx"] == i, it.f["g"] == 0), "pre")
        e.write(acc, e.read(acc) + per_point(i))
    ex.contracts["PointFn::operator()"] = call
    f = ex.alloc(Struct("freud_verif_driver::PointFn", {}), "f")
    nqp = p.size("nqp")
    qps, o.points = arr_ptr(ex, "qpoints", nqp)
    ex.func("loopOverNeighborsIterator", ex.alloc(o.nq.ptr), qps, nqp, ex.alloc(UNDEF), ex.alloc(NULL), f, TRUE)
    p.ensure("throws exactly in non-periodic boxes", p.thrown() == Not(z3.And(*o.nq.box.f["m_periodic"].f.values())))
    p.require(Not(p.thrown()))
    p.ensure("every query point once", ex.read(acc) == s0 + SUM(nqp, per_point))
    p.reach()


@proof(TU)
def same_effect(p):
    """the sum over a sorted list's bonds is the sum over query points of the sums over their runs: applying a function
    to a list, and to a query whose bonds are the list's runs, has the same effect"""
    ex = p.ex
    nl = neighbor_list(p)
    q_sorted(p, nl)
    seg_axioms(p, nl)
    F = z3.Function("contribution", I, R)
    S, T, Q = [z3.Function(n, I, R) for n in ("list_sum", "by_point_sum", "unused")]
    C = z3.Function("run_sum", I, I, R)
    i, k = p.int("i"), p.int("k")
    # definitions
    ex.fact(S(0) == 0)
    ex.fact(FORALL([k], z3.Implies(k >= 0, S(k + 1) == S(k) + F(k)), patterns=[S(k + 1)]))
    ex.fact(FORALL([i], C(i, 0) == 0))
    ex.fact(FORALL([i, k], z3.Implies(k >= 0, C(i, k + 1) == C(i, k) + F(nl.seg(i) + k)), patterns=[C(i, k + 1)]))
    ex.fact(T(0) == 0)
    ex.fact(FORALL([i], z3.Implies(i >= 0, T(i + 1) == T(i) + C(i, nl.cnt(i))), patterns=[T(i + 1)]))
    m, c = p.nat("m"), p.nat("c")
    e1, e2 = nl.seg(m) + nl.cnt(m), nl.seg(m + 1)
    for nm, x in (("end", e1), ("end", e1 - 1), ("start", e2), ("start", e2 - 1)):
        for h in (m, m + 1):
            p.lemma(f"bond at the {nm} of a run", z3.Implies(z3.And(x >= 0, x < nl.n), z3.And((nl.query(x) == h) == z3.And(nl.seg(h) <= x, x < nl.seg(h) + nl.cnt(h)),
                                                                                           (nl.query(x) < h) == (x < nl.seg(h)))))
    p.lemma("a run starts where the previous one ends", z3.And(nl.seg(0) == 0, nl.seg(m + 1) == nl.seg(m) + nl.cnt(m)))
    p.lemma("all bonds belong to some query point", nl.seg(nl.nq) == nl.n)
    p.ensure("induction over a run: start", S(nl.seg(m) + 0) == S(nl.seg(m)) + C(m, 0))
    p.ensure("induction over a run: step", z3.Implies(S(nl.seg(m) + c) == S(nl.seg(m)) + C(m, c), S(nl.seg(m) + (c + 1)) == S(nl.seg(m)) + C(m, c + 1)))
    ex.fact(S(nl.seg(m) + nl.cnt(m)) == S(nl.seg(m)) + C(m, nl.cnt(m)))
    p.ensure("induction over query points: start", S(nl.seg(0)) == T(0))
    p.ensure("induction over query points: step", z3.Implies(S(nl.seg(m)) == T(m), S(nl.seg(m + 1)) == T(m + 1)))
    ex.fact(S(nl.seg(nl.nq)) == T(nl.nq))
    p.ensure("same effect", S(nl.n) == T(nl.nq))


@proof(["locality/NeighborComputeFunctional.cc", "locality/NeighborList.cc"])
def default_list(p):
    """makeDefaultNlist returns a given list itself, and otherwise the list of the query; both only if their numbers of
    points are those of the system"""
    ex = p.ex
    use_nlist(ex)
    o = live_query(p)
    nl = neighbor_list(p)
    nqp = p.size("nqp", 1)
    qps, o.points = arr_ptr(ex, "qpoints", nqp)
    r = ex.func("makeDefaultNlist", ex.alloc(o.nq.ptr), ex.alloc(nl.ptr), qps, nqp, ex.alloc(UNDEF))
    p.ensure("given list: rejected exactly when its numbers of points differ", p.thrown() == Not(z3.And(nl.nq == nqp, nl.np == o.nq.np)))
    p.eq("given list: returned itself", r, nl.ptr)


@proof(["locality/NeighborComputeFunctional.cc", "locality/NeighborList.cc"])
def default_query(p):
    """makeDefaultNlist without a list queries the given points"""
    ex = p.ex
    use_nlist(ex)
    o = live_query(p)
    made = neighbor_list(p, "made")
    asked = []

    def to_list(e, a, this):
        asked.append(e.read(this))
        return made.ptr
    ex.contracts["NeighborQueryIterator::toNeighborList"] = to_list
    nqp = p.size("nqp", 1)
    qps, o.points = arr_ptr(ex, "qpoints", nqp)
    r = ex.func("makeDefaultNlist", ex.alloc(o.nq.ptr), ex.alloc(NULL), qps, nqp, ex.alloc(UNDEF))
    per = z3.And(*o.nq.box.f["m_periodic"].f.values())
    p.ensure("rejected exactly for non-periodic boxes or other numbers of points", p.thrown() == Not(z3.And(per, made.nq == nqp, made.np == o.nq.np)))
    p.require(Not(p.thrown()))
    p.eq("the list of the query is returned", r, made.ptr)
    p.ensure("one query", z3.BoolVal(len(asked) == 1))
    it = asked[0]
    p.eq("query points", it.f["m_query_points"], qps)
    p.eq("number of query points", it.f["m_num_query_points"], nqp)
    p.eq("query object", it.f["m_neighbor_query"], o.nq.ptr)
    p.reach()


def to_list(p, by):
    ex = p.ex
    use_nlist(ex)
    o = live_query(p)
    nqp = p.size("nqp")
    qps, o.points = arr_ptr(ex, "qpoints", nqp)
    i0, k0 = z3.FreshConst(I, "i"), z3.FreshConst(I, "k")
    # bonds have valid indices; the sequence ends with the terminator
    live = lambda i, k: z3.And(0 <= i, i < nqp, 0 <= k, k < o.n(i))
    b0 = o.bond(i0, k0)
    ex.fact(FORALL([i0, k0], z3.Implies(live(i0, k0), z3.And(b0.f["query_point_idx"] < nqp, b0.f["point_idx"] < o.nq.np)),
                   patterns=[b0.f["query_point_idx"]]))
    ex.fact(FORALL([i0], is_term(o.bond(i0, o.n(i0)))))
    p.require(z3.And(nqp < TERM, o.nq.np < TERM))
    start = prefix_sum(p, o.n, "numbers of bonds")
    p.require(start(nqp) < 0x7fffffff)
    own = z3.Function("own", I, I)
    x = z3.FreshConst(I, "x")
    ex.fact(FORALL([x], z3.Implies(z3.And(x >= 0, x < start(nqp)), z3.And(own(x) >= 0, own(x) < nqp, start(own(x)) <= x, x < start(own(x)) + o.n(own(x)))), patterns=[own(x)]))
    order = ("query_point_idx", "point_idx", "distance", "weight")
    flat = lambda b: [b.f[c] for c in order] + list(comps(b.f["vector"]))

    def made(b):
        """the stored bond: its distance is the length of its vector"""
        b = flat(b)
        return b[:2] + [sqrt(b[4] * b[4] + b[5] * b[5] + b[6] * b[6])] + b[3:]

    def has(v, nm):
        try:
            v.ptr(nm)
            return True
        except Unsupported:
            return False

    def filled(v):
        """number of bonds collected before iteration k"""
        if has(v, "linear_bonds"):
            return None
        if v.depth == 0:
            return start(v.k)
        n = o.n(v["i"])
        return start(v["i"]) + z3.If(v.k <= n, v.k, n)

    def size(v):
        n = filled(v)
        return None if n is None else v["bonds"].n == n

    def column(c):
        def content(v):
            n = filled(v)
            if n is None:
                return None
            x = z3.Int("cell")
            got, want = flat(v["bonds"].get(x))[c], made(o.bond(own(x), x - start(own(x))))[c]
            return FORALL([x], z3.Implies(z3.And(x >= 0, x < n), got == want))
        return content
    ex.invariants["toNeighborList"] = [size] + [column(c) for c in range(7)]
    it = ex.new("NeighborQueryIterator", o.nq.ptr, qps, nqp, ex.alloc(UNDEF))
    p.not_thrown()
    r = ex.method(it, "toNeighborList", z3.BoolVal(by))
    p.not_thrown()
    if len(ex.perms) != 2:
        raise Unsupported("bonds are not collected and sorted once")
    (f1, g1), (f2, g2) = ex.perms
    j, k = p.int("j"), p.int("k")
    n = start(nqp)
    inr = z3.And(j >= 0, j < n)
    sizes_are(p, r, n)
    cell, place = (lambda j: f1(f2(j))), (lambda c: g2(g1(c)))
    p.ensure("one bond for every bond of the query: in range", z3.Implies(inr, z3.And(cell(j) >= 0, cell(j) < n)))
    p.ensure("one bond for every bond of the query: none is lost", z3.Implies(inr, z3.And(place(j) >= 0, place(j) < n, cell(place(j)) == j)))
    p.ensure("one bond for every bond of the query: none twice", z3.Implies(z3.And(inr, k >= 0, k < n, cell(j) == cell(k)), j == k))
    c = cell(j)
    b = o.bond(own(c), c - start(own(c)))
    m = made(b)
    same_bond(p, "bond", inr, fields(ex, r, j), (m[0], m[1], m[2], m[3], vec(*m[4:])))
    x, y = fields(ex, r, j), fields(ex, r, k)
    s = 2 if by else 1
    p.ensure("sorted", z3.Implies(z3.And(0 <= j, j < k, k < n), Or(x[0] < y[0], z3.And(x[0] == y[0], x[s] <= y[s]))))
    p.ensure("numbers of points", z3.And(at(ex, r, "m_num_query_points") == nqp, at(ex, r, "m_num_points") == o.nq.np))
    p.ensure("derived index is stale", Not(at(ex, r, "m_segments_counts_updated")))
    p.reach()


@proof([TU, "locality/NeighborList.cc"], sizes=["nqp"])
def list_of_query(p):
    """toNeighborList has one bond for every bond the query returns, with all its fields (the distance recomputed from the
    vector), sorted by query point and point"""
    to_list(p, False)


@proof([TU, "locality/NeighborList.cc"], sizes=["nqp"])
def list_of_query_by_distance(p):
    """the same, sorted by query point and distance"""
    to_list(p, True)


@proof(TU)
def query_next(p):
    """next() of a query returns the bonds of the query points in order and then the terminator"""
    ex = p.ex
    o = live_query(p)
    nqp = p.nat("nqp")
    qps, o.points = arr_ptr(ex, "qpoints", nqp)
    start = prefix_sum(p, o.n, "numbers of bonds")
    i0, k0 = z3.FreshConst(I, "i"), z3.FreshConst(I, "k")
    b0 = o.bond(i0, k0)
    ex.fact(FORALL([i0, k0], z3.Implies(z3.And(0 <= i0, i0 < nqp, 0 <= k0, k0 < o.n(i0)), b0.f["query_point_idx"] < nqp), patterns=[b0.f["query_point_idx"]]))
    ex.fact(FORALL([i0], is_term(o.bond(i0, o.n(i0)))))
    p.require(nqp < TERM)
    # the iterator's own per-point iterator: one object, replaced when the next query point is begun
    slot = ex.alloc(Struct("freud::locality::NeighborQueryPerPointIterator", {"m_query_point_idx": iv(0), "g": iv(0)}), "it")

    def single(e, a, this):
        e.write(slot, Struct("freud::locality::NeighborQueryPerPointIterator", {"m_query_point_idx": to_int(e.rd(a[1])), "g": iv(0)}))
        return slot
    ex.contracts["NeighborQuery::querySingle"] = single
    c, g = p.nat("c"), p.nat("g")
    p.require(z3.And(c < nqp, g <= o.n(c)))
    ex.write(slot, Struct("freud::locality::NeighborQueryPerPointIterator", {"m_query_point_idx": c, "g": g}))
    it = ex.alloc(Struct("freud::locality::NeighborQueryIterator", {"m_neighbor_query": o.nq.ptr, "m_query_points": qps, "m_num_query_points": nqp,
                                                                    "m_qargs": UNDEF, "m_iter": slot, "m_finished": FALSE, "m_cur_p": c}), "iter")

    def skipped(v):
        k = v.k
        if v.nest != 0:
            return None
        s = ex.read(slot)
        cur = at(ex, it, "m_cur_p")
        return z3.And(cur == c + k, cur < nqp, s.f["m_query_point_idx"] == cur, s.f["g"] == z3.If(k == 0, g, 0), z3.Implies(k > 0, start(cur) == start(c) + g))
    ex.invariants["next"] = [skipped]
    b = ex.method(it, "next")
    p.not_thrown()
    fin, cur, sl = at(ex, it, "m_finished"), at(ex, it, "m_cur_p"), ex.read(slot)
    pos, i, k = start(c) + g, p.int("i"), p.int("k")
    # (i, k): the next bond in order, if there is one
    here = z3.And(0 <= i, i < nqp, 0 <= k, k < o.n(i), start(i) + k == pos)
    p.ensure("a bond is left: not finished", z3.Implies(here, Not(fin)))
    p.ensure("a bond is left: its query point", z3.Implies(here, z3.And(cur == i, sl.f["m_query_point_idx"] == i)))
    p.ensure("a bond is left: position after it", z3.Implies(here, sl.f["g"] == k + 1))
    w = o.bond(i, k)
    for nm in ("query_point_idx", "point_idx", "distance", "weight"):
        p.ensure(f"a bond is left: {nm}", z3.Implies(here, b.f[nm] == w.f[nm]))
    for x in "xyz":
        p.ensure(f"a bond is left: vector {x}", z3.Implies(here, b.f["vector"].f[x] == w.f["vector"].f[x]))
    p.ensure("no bond is left: finished and the terminator is returned", z3.Implies(pos == start(nqp), z3.And(fin, is_term(b))))
    p.reach()
