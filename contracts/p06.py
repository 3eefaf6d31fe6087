"""P06: neighbour lists: construction, derived index, filtering, sorting, copying."""
from .lib import *

TU = "locality/NeighborList.cc"
ASSUMPTIONS = ["float distances of bonds given by vectors are exact square roots"]
FORALL = z3.ForAll


@proof(TU)
def bisection(p):
    """bisection_search(val, left, right) returns the last position before val in [left, right) (or left)"""
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    q_sorted(p, nl)
    val, left, right = p.nat("val"), p.nat("left"), p.nat("right")
    p.require(z3.And(val < 0xffffffff, left < right, right <= nl.n))

    def post(v, l, r, res):
        return z3.And(l <= res, res < r, z3.Implies(res > l, nl.query(res) < v), z3.Implies(res + 1 < r, nl.query(res + 1) >= v))
    calls = []

    def contract(e, a, this):
        v, l, r = [to_int(e.rd(x)) for x in a]
        e.oblige("recursive call: precondition", z3.And(l >= 0, l < r, r <= nl.n), "pre")
        e.oblige("recursive call: terminates", r - l < right - left, "term")
        res = z3.Function(f"res{len(calls)}", I, I, I, I)(v, l, r)
        calls.append(res)
        e.fact(z3.Implies(z3.And(l >= 0, l < r, r <= nl.n), post(v, l, r, res)))
        return res
    ex.contracts["NeighborList::bisection_search"] = contract
    ex.body_once.add("bisection_search")
    r = ex.method(nl.ptr, "bisection_search", val, left, right)
    p.not_thrown()
    p.ensure("postcondition", post(val, left, right, r))


@proof(TU)
def find_first_index(p):
    """find_first_index(i) is the first bond whose query point is not before i"""
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    q_sorted(p, nl)
    seg_axioms(p, nl)
    use_bisection(p, nl)
    i = p.nat("i")
    p.require(i < 0xffffffff)
    r = ex.method(nl.ptr, "find_first_index", i)
    p.not_thrown()
    k = p.int("k")
    p.ensure("in range", z3.And(r >= 0, r <= nl.n))
    p.ensure("earlier bonds belong to earlier points", z3.Implies(z3.And(k >= 0, k < r), nl.query(k) < i))
    p.ensure("and no later ones", z3.Implies(z3.And(k >= r, k < nl.n), nl.query(k) >= i))
    p.lemma("the start is not after it", z3.Implies(nl.n > 0, z3.And(z3.Implies(r < nl.n, nl.query(r) >= i), z3.Implies(r > 0, nl.query(r - 1) < i))))
    p.ensure("is the start of the run", r == nl.seg(i))


@proof(TU)
def segments(p):
    """updateSegmentCounts: for every query point the first of its bonds and their number"""
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    q_sorted(p, nl)
    seg_axioms(p, nl)
    p.require(nl.nq < 0xffffffff)
    this = nl.ptr
    TERM = 0xffffffff

    def inv(v):
        k = v.k
        last, counter = v["last_index"], v["counter"]
        sg = at(ex, at(ex, this, "m_segments"), "flat")
        ct = at(ex, at(ex, this, "m_counts"), "flat")
        j = z3.Int("point")
        prev = nl.query(k - 1)
        return z3.And(last == z3.If(k == 0, TERM, prev),
                      counter == z3.If(k == 0, 0, k - nl.seg(prev)),
                      FORALL([j], z3.Implies(z3.And(j >= 0, j < nl.nq), z3.And(
                          sg.get(j) == z3.If(z3.And(nl.cnt(j) > 0, nl.seg(j) < k), nl.seg(j), 0),
                          ct.get(j) == z3.If(z3.And(k > 0, j < prev), nl.cnt(j), 0)))))
    ex.invariants["updateSegmentCounts"] = [inv]
    ex.method(this, "updateSegmentCounts")
    p.not_thrown()
    j = p.int("j")
    p.require(z3.And(j >= 0, j < nl.nq))
    p.ensure("updated", at(ex, this, "m_segments_counts_updated"))
    p.ensure("first bond", z3.Implies(nl.cnt(j) > 0, at(ex, at(ex, this, "m_segments"), "flat", j) == nl.seg(j)))
    p.ensure("number of bonds", at(ex, at(ex, this, "m_counts"), "flat", j) == nl.cnt(j))


@proof(TU, sizes=["n"])
def from_arrays(p):
    """the constructor from arrays accepts exactly sorted, in-range indices; bonds are the given ones"""
    ex = p.ex
    n, nq, np = p.size("n"), p.nat("nq"), p.nat("np")
    p.require(n < 0x7fffffff)
    qp, qa = arr_ptr(ex, "q", n, "unsigned int")
    ip, ia = arr_ptr(ex, "i", n, "unsigned int")
    vp, va = arr_ptr(ex, "v", n)
    wp, wa = arr_ptr(ex, "w", n, "float")
    r = ex.new("NeighborList", n, qp, nq, ip, np, vp, wp)
    Q, I_ = (lambda k: at(ex, qa, k)), (lambda k: at(ex, ia, k))
    k0 = z3.FreshConst(I, "k")
    p.require(FORALL([k0], z3.And(Q(k0) >= 0, I_(k0) >= 0)))
    k = p.int("k")
    inr = z3.And(k >= 0, k < n)
    bad = lambda k: Or(z3.And(k > 0, Q(k) < Q(k - 1)), Q(k) >= nq, I_(k) >= np)
    kk = z3.FreshConst(I, "kk")
    p.ensure("rejected only when unsorted or out of range", z3.Implies(p.thrown(), z3.Exists([kk], z3.And(kk >= 0, kk < n, bad(kk)))))
    ok = Not(p.thrown())
    p.ensure("accepted lists are sorted and in range", z3.Implies(z3.And(ok, inr), Not(bad(k))))
    v = at(ex, va, k)
    p.require(ok)
    same_bond(p, "bond", inr, fields(ex, r, k), (Q(k), I_(k), sqrt(norm2(v)), at(ex, wa, k), v))
    sizes_are(p, r, n)
    p.ensure("numbers of points", z3.And(at(ex, r, "m_num_query_points") == nq, at(ex, r, "m_num_points") == np))
    p.ensure("derived index is stale", Not(at(ex, r, "m_segments_counts_updated")))
    p.reach()


@proof(TU, sizes=["n"])
def from_bonds(p):
    """the constructor from a vector of bonds stores them in order"""
    ex = p.ex
    n, nq, np = p.size("n"), p.nat("nq"), p.nat("np")
    p.require(n < 0x7fffffff)
    arr = ex.sym_array("bonds", n, "freud::locality::NeighborBond")
    r = ex.new("NeighborList", arr, nq, np)
    p.not_thrown()
    k = p.int("k")
    b = arr.get(k)
    same_bond(p, "bond", z3.And(k >= 0, k < n), fields(ex, r, k), [b.f[x] for x in ("query_point_idx", "point_idx", "distance", "weight", "vector")])
    sizes_are(p, r, n)
    p.ensure("numbers of points", z3.And(at(ex, r, "m_num_query_points") == nq, at(ex, r, "m_num_points") == np))
    p.ensure("derived index is stale", Not(at(ex, r, "m_segments_counts_updated")))
    p.reach()


@proof(TU, sizes=["nl_bonds", "m"])
def resize(p):
    """setNumBonds keeps the first bonds when the list shrinks"""
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    m, nq, np = p.size("m"), p.nat("nq"), p.nat("np")
    p.require(m < 0x7fffffff)
    old = {f: at(ex, nl.ptr, f) for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors")}
    ex.write(Ptr(nl.ptr.loc, ("m_segments_counts_updated",)), p.bool("upd"))
    ex.method(nl.ptr, "setNumBonds", m, nq, np)
    p.not_thrown()
    k = p.int("k")
    same_bond(p, "kept", z3.And(k >= 0, k < m, m <= nl.n), fields(ex, nl.ptr, k), rec(nl, k))
    sizes_are(p, nl.ptr, m)
    p.ensure("numbers of points", z3.And(at(ex, nl.ptr, "m_num_query_points") == nq, at(ex, nl.ptr, "m_num_points") == np))
    p.ensure("derived index is stale", Not(at(ex, nl.ptr, "m_segments_counts_updated")))
    for f, o in old.items():
        p.ensure(f"arrays handed out earlier are not reused: {f}", BoolVal(o.loc != at(ex, nl.ptr, f).loc))
    p.reach()


BoolVal = z3.BoolVal


@proof(TU, sizes=["nl_bonds"])
def copying(p):
    """copy and the copy constructor give an equal list with arrays of its own"""
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    ex.write(Ptr(nl.ptr.loc, ("m_segments_counts_updated",)), p.bool("upd"))
    c = ex.new("NeighborList", nl.ptr, typ="const NeighborList&")
    d = ex.new("NeighborList", nparams=0)
    ex.method(d, "copy", nl.ptr)
    p.not_thrown()
    k = p.int("k")
    inr = z3.And(k >= 0, k < nl.n)
    for nm, r in (("copy constructor", c), ("copy", d)):
        same_bond(p, nm, inr, fields(ex, r, k), rec(nl, k))
        sizes_are(p, r, nl.n)
        p.ensure(f"{nm}: numbers of points", z3.And(at(ex, r, "m_num_query_points") == nl.nq, at(ex, r, "m_num_points") == nl.np))
        for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors", "m_segments", "m_counts"):
            p.ensure(f"{nm}: own {f}", BoolVal(at(ex, r, f).loc != at(ex, nl.ptr, f).loc))
        upd = at(ex, r, "m_segments_counts_updated")
        p.ensure(f"{nm}: the derived index is valid only when it was", z3.Implies(upd, at(ex, nl.ptr, "m_segments_counts_updated")))
        j = p.int("j")
        for f in ("m_segments", "m_counts"):
            p.ensure(f"{nm}: {f} copied", z3.Implies(z3.And(j >= 0, j < nl.nq),
                     at(ex, at(ex, r, f), "flat", j) == at(ex, at(ex, nl.ptr, f), "flat", j)))


@proof(TU)
def validation(p):
    """validate throws exactly on different numbers of points"""
    ex = p.ex
    nl = neighbor_list(p)
    a, b = p.nat("a"), p.nat("b")
    ex.method(nl.ptr, "validate", a, b)
    p.ensure("throws exactly when inconsistent", p.thrown() == Not(z3.And(a == nl.nq, b == nl.np)))


def filt(p, call, keep):
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    ex.write(Ptr(nl.ptr.loc, ("m_segments_counts_updated",)), p.bool("upd"))
    old = {f: at(ex, nl.ptr, f) for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors")}
    K = keep(nl)
    R = prefix_sum(p, lambda t: z3.If(K(t), iv(1), iv(0)), "ranks", upper=1)

    def inv(v):
        kk = v.k
        t = z3.Int("bond")
        try:
            nb, ds, ws, vs = [v["new_" + x] for x in ("neighbors", "distances", "weights", "vectors")]
        except Unsupported:
            return None
        at_ = lambda arr, i: at(ex, arr, "flat").get(i)
        r = R(t)
        row = at(ex, nb, "nest").get(r)
        vec_ = at_(vs, r)
        return z3.And(v["num_good"] == R(kk),
                      FORALL([t], z3.Implies(z3.And(t >= 0, t < kk, K(t)), z3.And(
                          row.get(iv(0)) == nl.query(t), row.get(iv(1)) == nl.point(t), at_(ds, r) == nl.distance(t), at_(ws, r) == nl.weight(t),
                          *[x == y for x, y in zip(comps(vec_), comps(nl.vector(t)))]))))
    ex.invariants["filter"] = [inv]
    res = call(nl)
    return nl, K, R, old, res


def filter_post(p, nl, K, R, old, res):
    ex = p.ex
    p.not_thrown()
    j = p.int("j")
    same_bond(p, "kept bond in order", z3.And(j >= 0, j < nl.n, K(j)), fields(ex, nl.ptr, R(j)), rec(nl, j))
    sizes_are(p, nl.ptr, R(nl.n))
    p.ensure("returns the number of removed bonds", res == nl.n - R(nl.n))
    p.ensure("numbers of points unchanged", z3.And(at(ex, nl.ptr, "m_num_query_points") == nl.nq, at(ex, nl.ptr, "m_num_points") == nl.np))
    p.ensure("derived index is stale", Not(at(ex, nl.ptr, "m_segments_counts_updated")))
    for f, o in old.items():
        p.ensure(f"arrays handed out earlier are not reused: {f}", BoolVal(o.loc != at(ex, nl.ptr, f).loc))
    k = z3.FreshConst(I, "k")
    for f, o, w in (("m_distances", old["m_distances"], nl.distance),):
        p.ensure(f"arrays handed out earlier are unchanged: {f}", z3.Implies(z3.And(j >= 0, j < nl.n), at(ex, o, "flat", j) == w(j)))
    p.reach()


@proof(TU, sizes=["nl_bonds"])
def filter_mask(p):
    """filter(mask) keeps exactly the selected bonds, in order, with all their fields"""
    ex = p.ex
    mask = z3.Function("mask", I, B)

    def call(nl):
        m = ex.alloc(Arr(nl.n, lambda k: mask(k), "bool"), "mask")
        return ex.method(nl.ptr, "filter", Ptr(m.loc, (iv(0),)), typ="(const bool*)")
    filter_post(p, *filt(p, call, lambda nl: mask))


@proof(TU, sizes=["nl_bonds"])
def filter_r(p):
    """filter_r keeps exactly the bonds with r_min <= distance < r_max"""
    ex = p.ex
    hi, lo = p.real("r_max"), p.real("r_min")

    p.require(z3.And(hi > lo, lo >= 0))
    call = lambda nl: ex.method(nl.ptr, "filter_r", hi, lo)
    filter_post(p, *filt(p, call, lambda nl: lambda k: z3.And(nl.distance(k) >= lo, nl.distance(k) < hi)))


@proof(TU)
def filter_r_range(p):
    """filter_r rejects exactly r_max <= 0, r_min < 0 and r_max <= r_min, leaving the list alone"""
    ex = p.ex
    use_nlist(ex)
    hi, lo = p.real("r_max"), p.real("r_min")
    nl = neighbor_list(p)
    ex.contracts["filter"] = lambda e, a, this: iv(0)
    old = {f: at(ex, nl.ptr, f) for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors")}
    ex.method(nl.ptr, "filter_r", hi, lo)
    p.ensure("rejects exactly bad ranges", p.thrown() == Or(hi <= 0, lo < 0, hi <= lo))
    for f, o in old.items():
        p.ensure(f"list unchanged: {f}", BoolVal(o.loc == at(ex, nl.ptr, f).loc))


def a_bond(p, nm):
    return Struct("freud::locality::NeighborBond", {"query_point_idx": p.nat(nm + "q"), "point_idx": p.nat(nm + "i"), "distance": p.real(nm + "d"),
                                                    "weight": p.real(nm + "w"), "vector": vec(p.real(nm + "x"), p.real(nm + "y"), p.real(nm + "z"))})


@proof(TU)
def orders(p):
    """both comparison functions are strict weak orders that order by query point first"""
    ex = p.ex
    a, b, c = [a_bond(p, n) for n in "abc"]
    pa, pb, pc = [ex.alloc(x, "bond") for x in (a, b, c)]
    for fn, second in (("compareNeighborBond", "point_idx"), ("compareNeighborDistance", "distance")):
        less = lambda x, y: to_bool(ex.func(fn, x, y))
        eqv = lambda x, y: Not(Or(less(x, y), less(y, x)))
        p.ensure(f"{fn}: irreflexive", Not(less(pa, pa)))
        p.ensure(f"{fn}: transitive", z3.Implies(z3.And(less(pa, pb), less(pb, pc)), less(pa, pc)))
        p.ensure(f"{fn}: incomparability is transitive", z3.Implies(z3.And(eqv(pa, pb), eqv(pb, pc)), eqv(pa, pc)))
        lex = Or(a.f["query_point_idx"] < b.f["query_point_idx"],
                 z3.And(a.f["query_point_idx"] == b.f["query_point_idx"], a.f[second] < b.f[second]))
        p.ensure(f"{fn}: lexicographic", z3.Implies(lex, less(pa, pb)))


def sorted_list(p, by):
    ex = p.ex
    nl = neighbor_list(p)
    names = ("query", "point", "distance", "weight")
    ex.method(nl.ptr, "sort", z3.BoolVal(by))
    p.not_thrown()
    sizes_are(p, nl.ptr, nl.n)
    j, k = p.int("j"), p.int("k")
    inr = z3.And(j >= 0, j < nl.n)
    b = fields(ex, nl.ptr, j)
    # the order of the old bonds: position j of the new list holds old bond perm(j)
    pj, qj = last_perm(ex)
    o = rec(nl, pj(j))
    p.ensure("permutation: in range", z3.Implies(inr, z3.And(pj(j) >= 0, pj(j) < nl.n)))
    p.ensure("permutation: every old bond is kept", z3.Implies(inr, z3.And(qj(j) >= 0, qj(j) < nl.n, pj(qj(j)) == j)))
    p.ensure("permutation: no bond twice", z3.Implies(z3.And(inr, k >= 0, k < nl.n, pj(j) == pj(k)), j == k))
    same_bond(p, "moved bond", inr, b, o)
    c = fields(ex, nl.ptr, k)
    s = 2 if by else 1
    p.ensure("sorted", z3.Implies(z3.And(0 <= j, j < k, k < nl.n), Or(b[0] < c[0], z3.And(b[0] == c[0], b[s] <= c[s]))))
    p.ensure("numbers of points unchanged", z3.And(at(ex, nl.ptr, "m_num_query_points") == nl.nq, at(ex, nl.ptr, "m_num_points") == nl.np))
    p.reach()


def last_perm(ex):
    """the permutation of the last std::sort"""
    if not ex.perms:
        raise Unsupported("no sort")
    return ex.perms[-1]


@proof(TU, sizes=["nl_bonds"])
def sort_by_point(p):
    """sort(False) orders by (query point, point) and keeps the same bonds with all their fields"""
    sorted_list(p, False)


@proof(TU, sizes=["nl_bonds"])
def sort_by_distance(p):
    """sort(True) orders by (query point, distance) and keeps the same bonds with all their fields"""
    sorted_list(p, True)


def all_pairs(p, excl):
    ex = p.ex
    use_wrap(ex)
    nq, np = p.size("nq"), p.size("np")
    p.require(z3.And(nq * np < 0x7fffffff, nq < 0x7fffffff, np < 0x7fffffff))
    box = ex.symbolic("box", "freud::box::Box")
    pts, pa = arr_ptr(ex, "points", np)
    qps, qa = arr_ptr(ex, "qpoints", nq)
    bx = ex.alloc(box, "box")
    r = ex.new("NeighborList", pts, qps, bx, z3.BoolVal(excl), np, nq, nparams=6)
    p.not_thrown()
    i, j = p.int("i"), p.int("j")
    inr = z3.And(0 <= i, i < nq, 0 <= j, j < np)
    if excl:
        inr = z3.And(inr, i != j)
        m = z3.If(i <= np, i, np)
        pos = i * np + j - m - z3.If(j > i, iv(1), iv(0))
        total = nq * np - z3.If(np <= nq, np, nq)
    else:
        pos, total = i * np + j, nq * np
    sizes_are(p, r, total)
    p.lemma("positions are in range", z3.Implies(inr, z3.And(pos >= 0, pos < total)))
    A, Q = comps(at(ex, pa, j)), comps(at(ex, qa, i))
    v, w = [WRAP(ex, bx, vec(*[s * (a - b) for a, b in zip(A, Q)])) for s in (1, -1)]
    same_bond(p, "every pair once, from query point to point", inr, fields(ex, r, pos), (i, j, sqrt(norm2(w)), rv(1), v))
    p.ensure("numbers of points", z3.And(at(ex, r, "m_num_query_points") == nq, at(ex, r, "m_num_points") == np))
    p.ensure("derived index is stale", Not(at(ex, r, "m_segments_counts_updated")))
    p.reach()


@proof(TU, sizes=["nq", "np"])
def all_pairs_with_self(p):
    """the all-pairs constructor has every (query point, point) pair exactly once, with the wrapped vector and its length"""
    all_pairs(p, False)


@proof(TU, sizes=["nq", "np"])
def all_pairs_without_self(p):
    """the all-pairs constructor without self pairs: the loop body for any one query point i (one call of the parallel
    loop's function on [i, i + 1)) fills row i and nothing else; rows are disjoint and cover all bonds"""
    ex = p.ex
    use_wrap(ex)
    nq, np, i = p.size("nq"), p.size("np"), p.nat("i")
    p.require(z3.And(nq * np < 0x7fffffff, nq < 0x7fffffff, np < 0x7fffffff, i < nq))
    box = ex.symbolic("box", "freud::box::Box")
    pts, pa = arr_ptr(ex, "points", np)
    qps, qa = arr_ptr(ex, "qpoints", nq)
    bx = ex.alloc(box, "box")
    j, k = p.int("j"), p.int("k")
    least = lambda a, b: z3.If(a <= b, a, b)
    total = nq * np - least(np, nq)
    base = lambda i: i * np - least(i, np)
    place = lambda i, j: base(i) + j - z3.If(j > i, iv(1), iv(0))
    a = p.int("a")
    p.lemma("rows have np - 1 bonds, those of query points beyond the points np", z3.Implies(a >= 0, base(a + 1) == base(a) + np - z3.If(a < np, iv(1), iv(0))))
    p.lemma("rows are disjoint", z3.Implies(z3.And(0 <= a, a < i), base(a + 1) <= base(i)))
    p.lemma("rows lie inside", z3.And(base(i) >= 0, base(i + 1) <= total))
    p.lemma("rows cover all bonds", base(nq) == total)
    x, y = z3.FreshConst(I, "x"), z3.FreshConst(I, "y")

    def values(y):
        A, Q = comps(at(ex, pa, y)), comps(at(ex, qa, i))
        v, w = [WRAP(ex, bx, vec(*[s * (a - b) for a, b in zip(A, Q)])) for s in (1, -1)]
        return i, y, sqrt(norm2(w)), rv(1), v

    flat = lambda g: [*g[:4], *comps(g[4])]
    first = lambda x: x - base(i) + z3.If(x - base(i) >= i, iv(1), iv(0))      # the point of cell x of row i

    def column(c):
        def row(v):
            j = v["j"]
            done = z3.And(base(i) <= x, x < base(i) + j - z3.If(j > i, iv(1), iv(0)))
            got, want, was = flat(fields(ex, v.this, x))[c], flat(values(first(x)))[c], flat(rec(old, x))[c]
            return z3.And(v["bond_idx"] == place(i, j), FORALL([x], got == z3.If(done, want, was)))
        return row
    ex.invariants["NeighborList"] = [column(c) for c in range(7)]
    old = neighbor_list(p, "old", B=total)

    def parallel(e, args, this):
        f = e.rd(args[2]).frame
        while f.this is None:
            f = f.parent
        o = f.this
        sizes_are(p, o, total)
        for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors"):
            e.write(at(e, o, f), e.read(at(e, old.ptr, f)))
        p.eq("parallel loop: from", to_int(e.rd(args[0])), iv(0))
        p.eq("parallel loop: to", to_int(e.rd(args[1])), nq)
        e.call_value(args[2], [i, simp(i + 1)])
    ex.repo_models["forLoopWrapper"] = parallel
    r = ex.new("NeighborList", pts, qps, bx, z3.BoolVal(True), np, nq, nparams=6)
    p.not_thrown()
    same_bond(p, "every other point once, from query point to point", z3.And(0 <= j, j < np, i != j), fields(ex, r, place(i, j)), values(j))
    same_bond(p, "other rows are left alone", Or(k < base(i), k >= base(i + 1)), fields(ex, r, k), rec(old, k))
    p.ensure("numbers of points", z3.And(at(ex, r, "m_num_query_points") == nq, at(ex, r, "m_num_points") == np))
    p.ensure("derived index is stale", Not(at(ex, r, "m_segments_counts_updated")))
    p.reach()


@proof(TU)
def accessors(p):
    """the contracts assumed by every other property's proofs about NeighborList accessors"""
    ex = p.ex
    nl = neighbor_list(p)
    p.eq("getNumBonds", ex.method(nl.ptr, "getNumBonds"), nl.n)
    p.eq("getNumQueryPoints", ex.method(nl.ptr, "getNumQueryPoints"), nl.nq)
    p.eq("getNumPoints", ex.method(nl.ptr, "getNumPoints"), nl.np)
    p.not_thrown()
