"""P18: the SANN and RAD filters."""
from .lib import *

SANN = "locality/FilterSANN.cc"
RAD = "locality/FilterRAD.cc"
NL = "locality/NeighborList.cc"
ASSUMPTIONS = ["strings in messages are tracked by their length only"]
TERM = 0xffffffff


@proof([SANN, NL])
def warning(p):
    """warnAboutUnfilledNeighborShells throws exactly when a query point is recorded and that is not allowed"""
    ex = p.ex
    n, allow = p.size("n"), p.bool("allow")
    f = ex.alloc(Struct("freud::locality::FilterSANN", {"m_unfiltered_nlist": NULL, "m_filtered_nlist": NULL, "m_allow_incomplete_shell": allow}), "filter")
    arr = ex.sym_array("unfilled", n, "unsigned int")
    u = ex.alloc(arr, "unfilled")
    t = z3.FreshConst(I, "t")
    some = lambda k: Not(FORALL([t], z3.Implies(z3.And(t >= 0, t < k), arr.get(t) == TERM)))

    def inv(v):
        ln = v["indices"].f["n"]
        return z3.And(Or(ln == 0, ln >= 3), (ln > 0) == some(v.k))
    ex.invariants["warnAboutUnfilledNeighborShells"] = [inv]
    ex.method(f, "warnAboutUnfilledNeighborShells", u)
    p.ensure("throws exactly for incomplete shells that are not allowed", p.thrown() == z3.And(some(n), Not(allow)))
    p.reach()


FLD = ("query_point_idx", "point_idx", "distance", "weight")


def flat(b):
    return [b.f[c] for c in FLD] + list(comps(b.f["vector"]))


def sorted_copy(p, nl):
    """sl: the unfiltered list nl sorted by query point and distance (NeighborList::sort(true), proved in P06:
    sort_by_distance), with its derived index (P06: segments, find_first)"""
    ex = p.ex
    sl = neighbor_list(p, "sorted", B=nl.n)
    P, Q = z3.Function("sortperm", I, I), z3.Function("sortplace", I, I)
    k = z3.FreshConst(I, "k")
    inr = z3.And(k >= 0, k < nl.n)
    ex.fact(FORALL([k], z3.Implies(inr, z3.And(P(k) >= 0, P(k) < nl.n, Q(P(k)) == k, *[a == b for a, b in zip(flat(bond(sl, k)), flat(bond(nl, P(k))))])), patterns=[P(k), sl.query(k)]))
    ex.fact(FORALL([k], z3.Implies(inr, z3.And(Q(k) >= 0, Q(k) < nl.n, P(Q(k)) == k)), patterns=[Q(k)]))
    q_sorted(p, sl)
    seg_axioms(p, sl)
    a, b = z3.FreshConst(I, "a"), z3.FreshConst(I, "b")
    ex.fact(FORALL([a, b], z3.Implies(z3.And(0 <= a, a < b, b < nl.n, sl.query(a) == sl.query(b)), sl.distance(a) <= sl.distance(b)),
                   patterns=[z3.MultiPattern(sl.distance(a), sl.distance(b))]))
    sl.perm, sl.place = P, Q

    def sort(e, args, this):
        e.oblige(f"sorted by distance in {e.cur()}", to_bool(e.rd(args[0])), "pre")
        o, s = e.read(this), e.read(sl.ptr)
        for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors"):
            if e.read(o.f[f]).f["shape"].n is None:
                raise Unsupported("list")
        # what is sorted is a copy of the unfiltered list
        same_bond(p, "the list sorted is the unfiltered one", inr, fields(e, this, k), rec(nl, k))
        e.write(this, Struct(o.cls, dict(o.f, **{f: s.f[f] for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors")}, m_segments_counts_updated=FALSE)))

    def update(e, args, this):
        m = e.read(Ptr(this.loc, this.path + ("m_num_query_points",)))
        e.write(Ptr(this.loc, this.path + ("m_counts",)), counts)
    counts = ex.alloc(ex.read(at(ex, sl.ptr, "m_counts")))
    c0 = ex.read(counts)
    ex.write(counts, Struct(c0.cls, dict(c0.f, shape=from_list([nl.nq], "unsigned long"), flat=Arr(nl.nq, lambda i: sl.cnt(i), "unsigned int"))))
    ex.contracts["NeighborList::sort"] = sort
    ex.contracts["NeighborList::updateSegmentCounts"] = update
    ex.contracts["NeighborList::find_first_index"] = lambda e, a, this: sl.seg(to_int(e.rd(a[0])))
    return sl


def warn_contract(p, unfilled, n):
    """unfilled(i): the shell of query point i is recorded as incomplete"""
    ex = p.ex
    seen = []

    def con(e, a, this):
        arr = e.read(a[0])
        i = p.int("i_shell")
        p.ensure("incomplete shells: one entry per query point", arr.n == n)
        p.ensure("incomplete shells are recorded", z3.Implies(z3.And(i >= 0, i < n), (arr.get(i) != TERM) == unfilled(i)))
        seen.append(1)
    ex.contracts["Filter::warnAboutUnfilledNeighborShells"] = con
    return seen


def result(p, f, nl, total, b):
    """the filtered list: a permutation of the collected bonds b(x), x < total, sorted by query point and distance"""
    ex = p.ex
    p.not_thrown()
    if len(ex.perms) != 2:
        raise Unsupported("bonds are not collected and sorted once")
    (f1, g1), (f2, g2) = ex.perms
    r = at(ex, f, "m_filtered_nlist")
    j, k = p.int("j"), p.int("k")
    inr = z3.And(j >= 0, j < total)
    sizes_are(p, r, total)
    cell, place = (lambda j: f1(f2(j))), (lambda c: g2(g1(c)))
    p.ensure("selected bonds: in range", z3.Implies(inr, z3.And(cell(j) >= 0, cell(j) < total)))
    p.ensure("selected bonds: none is lost", z3.Implies(inr, z3.And(place(j) >= 0, place(j) < total, cell(place(j)) == j)))
    w = b(cell(j))
    same_bond(p, "selected bond", inr, fields(ex, r, j), [*w[:4], vec(*w[4:])])
    x, y = fields(ex, r, j), fields(ex, r, k)
    p.ensure("sorted by query point and distance", z3.Implies(z3.And(0 <= j, j < k, k < total), Or(x[0] < y[0], z3.And(x[0] == y[0], x[2] <= y[2]))))
    p.ensure("numbers of points", z3.And(at(ex, r, "m_num_query_points") == nl.nq, at(ex, r, "m_num_points") == nl.np))
    p.eq("the unfiltered list is stored", at(ex, f, "m_unfiltered_nlist"), nl.ptr)
    p.reach()


def setup(p):
    ex = p.ex
    use_nlist(ex)
    nl = neighbor_list(p)
    nq = neighbor_query(p)
    nqp = p.size("nqp", 1)
    qps, _ = arr_ptr(ex, "qpoints", nqp)
    use_default_nlist(p, nl, nq, qps, nqp)
    sl = sorted_copy(p, nl)
    return ex, nl, sl, nq, nqp, qps


def owners(p, start, cnt, n):
    """own(x): the query point whose bonds cell x belongs to"""
    own = z3.Function("own", I, I)
    x = z3.FreshConst(I, "x")
    p.ex.fact(FORALL([x], z3.Implies(z3.And(x >= 0, x < start(n)), z3.And(own(x) >= 0, own(x) < n, start(own(x)) <= x, x < start(own(x)) + cnt(own(x)))), patterns=[own(x)]))
    i, x = z3.FreshConst(I, "i"), z3.FreshConst(I, "x")
    one = z3.Implies(z3.And(i >= 0, i < n, x < start(n), start(i) <= x, x < start(i) + cnt(i)), own(x) == i)
    p.ensure("lemma cells have one owner", one)
    p.ex.fact(FORALL([i, x], one, patterns=[z3.MultiPattern(own(x), start(i))]))
    return own


@proof([SANN, NL])
def sann(p):
    """FilterSANN keeps for each query point its M nearest neighbours, M the least m >= 3 with sum of the m smallest
    distances / (m - 2) <= the next distance (all neighbours when there is none: an incomplete shell)"""
    ex, nl, sl, nq, nqp, qps = setup(p)
    M, S = z3.Function("shell", I, I), z3.Function("distance_sum", I, I, R)
    i, m = z3.FreshConst(I, "i"), z3.FreshConst(I, "m")
    d = lambda i, g: sl.distance(sl.seg(i) + g)
    fills = z3.Function("fills", R, I, R, B)         # definition: fills(s, m, d) iff s / (m - 2) <= d
    fill = lambda s, m, d: fills(s, m, d) == (fdiv(s, z3.ToReal(m) - 2) <= d)
    full = lambda i, m: fills(S(i, m), m, d(i, m))
    least = lambda a, b: z3.If(a <= b, a, b)
    # definitions
    ex.fact(FORALL([i], S(i, 0) == 0))
    m1 = z3.FreshConst(I, "m1")
    ex.fact(FORALL([i, m, m1], z3.Implies(z3.And(m >= 0, m1 == m + 1), S(i, m1) == S(i, m) + d(i, m)), patterns=[z3.MultiPattern(S(i, m1), S(i, m))]))
    ex.fact(FORALL([i], z3.And(M(i) >= 0, M(i) >= least(iv(3), sl.cnt(i)), M(i) <= sl.cnt(i), z3.Implies(M(i) < sl.cnt(i), full(i, M(i)))), patterns=[M(i)]))
    ex.fact(FORALL([i, m], z3.Implies(z3.And(m >= 3, m < M(i)), Not(full(i, m))), patterns=[S(i, m)]))
    start = prefix_sum(p, M, "numbers of kept bonds")
    p.require(z3.And(start(nqp) < 0x7fffffff, nqp < TERM))
    own = owners(p, start, M, nqp)
    wanted = lambda x: bond(sl, sl.seg(own(x)) + (x - start(own(x))))
    want = lambda x: flat(wanted(x))

    def has(v, nm):
        try:
            v.ptr(nm)
            return True
        except Unsupported:
            return False

    def filled(v):
        if v.depth == 0:
            return start(v.k)
        return start(v["i"]) + v["m"]

    def inside(f):
        def inv(v):
            return None if v.depth == 0 else f(v, v["i"], v["m"])
        inv.__name__ = f.__name__
        return inv

    def least_shell(v, i, m):
        ex.fact(fill(v["sum"], m, d(i, m)))
        return z3.And(m >= 0, m <= M(i), v["sum"] == S(i, m))

    def size(v):
        return v["local_bonds"].n == filled(v)

    def unfilled(v):
        if v.depth == 0:
            t = z3.Int("shell_of")
            return FORALL([t], z3.Implies(z3.And(t >= 0, t < v.k), (v["unfilled_qps"].get(t) != TERM) == (M(t) == sl.cnt(t))))

    def column(c):
        def content(v):
            x = z3.Int("cell")
            return FORALL([x], z3.Implies(z3.And(x >= 0, x < filled(v)), flat(v["local_bonds"].get(x))[c] == want(x)[c]))
        return content
    def shell(v):
        """after the loops over the neighbours of query point i"""
        if v.depth == 0:
            return
        i = v["i"]
        n = least(iv(3), sl.cnt(i)) if v.counted else M(i)
        ex.fact(fill(v["sum"], v["m"], d(i, v["m"])))
        v.becomes("m", n)
        v.becomes("sum", S(i, n))
        v.becomes("local_bonds", Arr(start(i) + n if v.counted else start(i + 1), wanted))
    ex.posts["compute"] = [shell]
    ex.invariants["compute"] = [inside(least_shell), size, unfilled] + [column(c) for c in range(7)]
    warn_contract(p, lambda i: M(i) == sl.cnt(i), nqp)
    f = ex.alloc(Struct("freud::locality::FilterSANN", {"m_unfiltered_nlist": NULL, "m_filtered_nlist": NULL, "m_allow_incomplete_shell": p.bool("allow")}), "filter")
    ex.method(f, "compute", nq.ptr, qps, nqp, nl.ptr, ex.alloc(UNDEF), NULL, NULL)
    result(p, f, nl, start(nqp), want)


def rad_setup(p, given, closed):
    ex, nl, sl, nq, nqp, qps = setup(p)
    use_wrap(ex)
    p.require(nqp < TERM)
    radii = arr_ptr(ex, "radii", nq.np, "float")[0] if given else NULL
    blocked = z3.Function("blocked", I, I, B)
    i, j, k = [z3.FreshConst(I, c) for c in "ijk"]
    box = ex.alloc(nq.box)

    def blocks(i, j, k):
        """the k-th neighbour blocks the j-th: (r_j |v_k|)^2 d_j d_k < r_k^2 (v_j . v_k) |v_j|^2"""
        q = comps(elem(ex, Ptr(qps.loc, (i,))))
        pt = [sl.point(sl.seg(i) + g) for g in (j, k)]
        a, b = [comps(WRAP(ex, box, vec(*[x - y for x, y in zip(q, comps(elem(ex, Ptr(nq.points.loc, (t,)))))]))) for t in pt]
        ra, rb = [elem(ex, Ptr(radii.loc, (t,))) if given else rv(1) for t in pt]
        dot = lambda u, v: sum(x * y for x, y in zip(u, v))
        return ra * ra * dot(b, b) * sl.distance(sl.seg(i) + j) * sl.distance(sl.seg(i) + k) < rb * rb * dot(a, b) * dot(a, a)
    # definition: a neighbour is blocked when an earlier one blocks it
    blk, by = z3.Function("blocks", I, I, I, B), z3.Function("blocker", I, I, I)
    ex.fact(FORALL([i, j, k], z3.Implies(z3.And(0 <= k, k < j, blk(i, j, k)), blocked(i, j)), patterns=[blk(i, j, k)]))
    ex.fact(FORALL([i, j], z3.Implies(blocked(i, j), z3.And(0 <= by(i, j), by(i, j) < j, blk(i, j, by(i, j)))), patterns=[blocked(i, j)]))
    f = ex.alloc(Struct("freud::locality::FilterRAD", {"m_unfiltered_nlist": NULL, "m_filtered_nlist": NULL,
                                                       "m_allow_incomplete_shell": p.bool("allow"), "m_terminate_after_blocked": z3.BoolVal(closed)}), "filter")
    call = lambda: ex.method(f, "compute", nq.ptr, qps, nqp, nl.ptr, ex.alloc(UNDEF), radii, NULL)

    def blocking(v):
        """after the search for a blocking neighbour"""
        i, j = v["i"], v["j"]
        ex.fact(blk(i, j, by(i, j)) == blocks(i, j, by(i, j)))
        if v.F is not None:
            ex.fact(blk(i, j, v.F) == blocks(i, j, v.F))
            v.stays(by(i, j))
        v.becomes("good_neighbor", Not(blocked(i, j)))
        v.forget()
    return ex, nl, sl, nq, nqp, blocked, blocking, f, call


def rad_closed(p, given):
    ex, nl, sl, nq, nqp, blocked, blocking, f, call = rad_setup(p, given, True)
    K = z3.Function("shell", I, I)
    i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
    # definition: K is the first blocked neighbour (all of them when none is)
    ex.fact(FORALL([i], z3.And(K(i) >= 0, K(i) <= sl.cnt(i), z3.Implies(K(i) < sl.cnt(i), blocked(i, K(i)))), patterns=[K(i)]))
    ex.fact(FORALL([i, j], z3.Implies(z3.And(j >= 0, j < K(i)), Not(blocked(i, j))), patterns=[blocked(i, j)]))
    start = prefix_sum(p, K, "numbers of kept bonds")
    p.require(start(nqp) < 0x7fffffff)
    own = owners(p, start, K, nqp)
    wanted = lambda x: bond(sl, sl.seg(own(x)) + (x - start(own(x))))

    def bonds_so_far(v):
        if v.nest == 0:
            return v["local_bonds"].n == start(v.k)
        if v.nest == 1:
            return v["local_bonds"].n == start(v["i"]) + v["j"]

    def shell_so_far(v):
        if v.nest == 1:
            return v["j"] <= K(v["i"])

    def good(v):
        if v.nest == 1:
            return v["good_neighbor"]
        if v.nest == 2:
            return z3.And(v["good_neighbor"], Not(v["good_neighbor"]) == z3.BoolVal(False))

    def column(c):
        def content(v):
            if v.nest > 1:
                return None
            x = z3.Int("cell")
            n = start(v.k) if v.nest == 0 else start(v["i"]) + v["j"]
            return FORALL([x], z3.Implies(z3.And(x >= 0, x < n), flat(v["local_bonds"].get(x))[c] == flat(wanted(x))[c]))
        return content

    def unfilled(v):
        if v.nest == 0:
            t = z3.Int("shell_of")
            return FORALL([t], z3.Implies(z3.And(t >= 0, t < v.k), (v["unfilled_qps"].get(t) != TERM) == (K(t) == sl.cnt(t))))
    ex.invariants["compute"] = [good, shell_so_far, bonds_so_far, unfilled] + [column(c) for c in range(7)]

    def leave(v):
        if v.nest == 2:
            blocking(v)
        elif v.nest == 1:
            i = v["i"]
            v.becomes("good_neighbor", K(i) == sl.cnt(i))
            v.becomes("local_bonds", Arr(start(i + 1), wanted))
    ex.posts["compute"] = [leave]
    warn_contract(p, lambda i: K(i) == sl.cnt(i), nqp)
    call()
    result(p, f, nl, start(nqp), lambda x: flat(wanted(x)))


@proof([RAD, NL])
def rad_closed_radii(p):
    """closed RAD keeps for each query point its neighbours, by distance, up to the first blocked one"""
    rad_closed(p, True)


@proof([RAD, NL])
def rad_closed_equal(p):
    """the same without radii: all are one"""
    rad_closed(p, False)


def rad_open(p, given):
    ex, nl, sl, nq, nqp, blocked, blocking, f, call = rad_setup(p, given, False)
    kept, mem = z3.Function("kept", I, I), z3.Function("kept_bond", I, I)
    i, j, x = [z3.FreshConst(I, c) for c in "ijx"]
    # the segments follow each other
    a, b = z3.FreshConst(I, "a"), z3.FreshConst(I, "b")
    hint = z3.And(a == sl.query(sl.seg(i + 1)), b == sl.query(sl.seg(i) + sl.cnt(i)))
    for q in (i, i + 1):                                                           # (instances)
        for k in (sl.seg(i + 1), sl.seg(i) + sl.cnt(i)):
            ex.fact(sl.run(q, k))
    p.ensure("lemma segments do not overlap", z3.Implies(z3.And(i >= 0, hint), sl.seg(i + 1) >= sl.seg(i) + sl.cnt(i)))
    p.ensure("lemma segments leave no gap", z3.Implies(z3.And(i >= 0, hint), sl.seg(i + 1) <= sl.seg(i) + sl.cnt(i)))
    i1 = z3.FreshConst(I, "i")
    ex.fact(FORALL([i, i1], z3.Implies(z3.And(i >= 0, i1 == i + 1), sl.seg(i1) == sl.seg(i) + sl.cnt(i)), patterns=[z3.MultiPattern(sl.seg(i1), sl.seg(i))]))
    hint = z3.And(a == sl.query(iv(0)), b == sl.query(nl.n - 1))
    p.ensure("lemma segments begin and end with the list", z3.Implies(hint, z3.And(sl.seg(iv(0)) == 0, sl.seg(nqp) == nl.n)))
    ex.fact(z3.And(sl.seg(iv(0)) == 0, sl.seg(nqp) == nl.n))
    # definition: the bonds that are kept, and their places
    ex.fact(FORALL([i, j], z3.Implies(z3.And(0 <= j, j < sl.cnt(i)), kept(sl.seg(i) + j) == z3.If(blocked(i, j), 0, 1)), patterns=[blocked(i, j)]))
    ex.fact(FORALL([x], z3.And(kept(x) >= 0, kept(x) <= 1), patterns=[kept(x)]))
    rank = prefix_sum(p, kept, "numbers of kept bonds")
    p.require(rank(nl.n) < 0x7fffffff)
    ex.fact(FORALL([x], z3.Implies(z3.And(x >= 0, x < rank(nl.n)), z3.And(mem(x) >= 0, mem(x) < nl.n, kept(mem(x)) == 1, rank(mem(x)) == x)), patterns=[mem(x)]))
    g = z3.Implies(z3.And(x >= 0, x < nl.n, kept(x) == 1), mem(rank(x)) == x)
    p.ensure("lemma kept bonds have their places", g)
    ex.fact(FORALL([x], g, patterns=[mem(rank(x))]))
    wanted = lambda x: bond(sl, mem(x))
    after = lambda v: rank(sl.seg(v.k)) if v.nest == 0 else rank(sl.seg(v["i"]) + v["j"])

    def bonds_so_far(v):
        if v.nest < 2:
            return v["local_bonds"].n == after(v)

    def good(v):
        if v.nest == 2:
            return v["good_neighbor"]

    def column(c):
        def content(v):
            if v.nest < 2:
                x = z3.Int("cell")
                return FORALL([x], z3.Implies(z3.And(x >= 0, x < after(v)), flat(v["local_bonds"].get(x))[c] == flat(wanted(x))[c]))
        return content

    def unfilled(v):
        if v.nest == 0:
            t = z3.Int("shell_of")
            return FORALL([t], z3.Implies(z3.And(t >= 0, t < nqp), v["unfilled_qps"].get(t) == TERM))
    ex.invariants["compute"] = [good, bonds_so_far, unfilled] + [column(c) for c in range(7)]

    def leave(v):
        if v.nest == 2:
            blocking(v)
        elif v.nest == 1:
            v.becomes("local_bonds", Arr(rank(sl.seg(v["i"] + 1)), wanted))
        elif v.nest == 0:
            v.becomes("local_bonds", Arr(rank(nl.n), wanted))
    ex.posts["compute"] = [leave]
    warn_contract(p, lambda i: FALSE, nqp)
    call()
    result(p, f, nl, rank(nl.n), lambda x: flat(wanted(x)))
    t = p.int("bond")
    p.ensure("exactly the neighbours not blocked are kept", z3.Implies(z3.And(i >= 0, i < nqp, j >= 0, j < sl.cnt(i)), (kept(sl.seg(i) + j) == 1) == Not(blocked(i, j))))


@proof([RAD, NL])
def rad_open_radii(p):
    """open RAD keeps for each query point the neighbours that no nearer one blocks"""
    rad_open(p, True)


@proof([RAD, NL])
def rad_open_equal(p):
    """the same without radii: all are one"""
    rad_open(p, False)
