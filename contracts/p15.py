"""P15: clusters are the connected components of the bond graph."""
from .lib import *

TU = "cluster/Cluster.cc"
ASSUMPTIONS = ["the neighbour list path of loopOverNeighbors; the query path calls the same function on the same bonds (P09)",
               "DisjointSets by its contract (find gives the representative, unite joins two classes) with calls happening one after another; its lock-free code and concurrent calls are explored (P15, P24)"]


def larger_first(counts, ids, a, b):
    return Or(counts(a) > counts(b), z3.And(counts(a) == counts(b), ids(a) < ids(b)))


@proof(TU, sizes=["clusters"])
def order_of_clusters(p):
    """sort_indexes_inverse gives each cluster its place in the order by decreasing size, equal sizes by smallest member"""
    ex = p.ex
    C = p.size("clusters")
    p.require(C < 0x7fffffff)
    ca, ma = ex.sym_array("counts", C, "size_t"), ex.sym_array("min_ids", C, "size_t")
    cnt, mid = ca.get, ma.get
    a, b = z3.FreshConst(I, "a"), z3.FreshConst(I, "b")
    t = z3.FreshConst(I, "t")

    def scattered(v):
        P = ex.perms[-1][0]
        return FORALL([t], z3.Implies(z3.And(t >= 0, t < v.k), v["inv_idx"].get(P(t)) == t), patterns=[P(t)])
    ex.invariants["sort_indexes_inverse"] = [scattered]
    r = ex.func("freud::cluster::Cluster::sort_indexes_inverse", ex.alloc(ca, "counts"), ex.alloc(ma, "min_ids"))
    p.not_thrown()
    p.ensure("one place per cluster", r.n == C)
    i, j = p.int("i"), p.int("j")
    rng = z3.And(i >= 0, i < C, j >= 0, j < C)
    pi, qi = ex.perms[-1]
    p.lemma("cluster i is at the place that names it", z3.Implies(z3.And(i >= 0, i < C), z3.And(r.get(i) == qi(i), pi(qi(i)) == i)))
    p.lemma("cluster j too", z3.Implies(z3.And(j >= 0, j < C), z3.And(r.get(j) == qi(j), pi(qi(j)) == j)))
    p.ensure("places in range", z3.Implies(z3.And(i >= 0, i < C), z3.And(r.get(i) >= 0, r.get(i) < C)))
    p.ensure("no place twice", z3.Implies(z3.And(rng, r.get(i) == r.get(j)), i == j))
    p.ensure("larger clusters first, ties by smallest member", z3.Implies(z3.And(rng, larger_first(cnt, mid, i, j)), r.get(i) < r.get(j)))
    p.reach()


ROOT = "mData"


def use_dset(ex):
    """DisjointSets by its contract: entry i is the representative of i's set (assumed; calls happen one after another)"""
    def rd(e, this, a):
        x = to_int(e.rd(a))
        arr = e.read(Ptr(this.loc, this.path + (ROOT,)))
        e.oblige(f"element in range in {e.cur()}", z3.And(x >= 0, x < arr.n), "pre")
        return arr.get(x)
    ex.contracts["DisjointSets::find"] = lambda e, a, this: rd(e, this, a[0])
    ex.contracts["DisjointSets::same"] = lambda e, a, this: rd(e, this, a[0]) == rd(e, this, a[1])

    def unite(e, a, this):
        x, y = rd(e, this, a[0]), rd(e, this, a[1])
        arr = e.read(Ptr(this.loc, this.path + (ROOT,)))
        w = z3.If(e.fresh("winner", B), x, y)
        e.write(Ptr(this.loc, this.path + (ROOT,)), Arr(arr.n, lambda i: ite(simp(Or(arr.get(i) == x, arr.get(i) == y)), w, arr.get(i)), arr.ety))
        return w
    ex.contracts["DisjointSets::unite"] = unite


def use_order(p):
    """sort_indexes_inverse (order_of_clusters): place(l) of each cluster, and who(c) at each place"""
    ex = p.ex
    place, who = z3.Function("place", I, I), z3.Function("who", I, I)

    def order(e, args, this):
        ca, ma = e.rd(args[0]), e.rd(args[1])
        C = ca.n
        e.oblige("precondition of sort_indexes_inverse", z3.And(ma.n == C, C < 0x7fffffff))
        l, m = z3.FreshConst(I, "l"), z3.FreshConst(I, "m")
        inr = lambda x: z3.And(x >= 0, x < C)
        ex.fact(FORALL([l], z3.Implies(inr(l), z3.And(inr(place(l)), who(place(l)) == l)), patterns=[place(l)]))
        ex.fact(FORALL([l], z3.Implies(inr(l), z3.And(inr(who(l)), place(who(l)) == l)), patterns=[who(l)]))
        ex.fact(FORALL([l, m], z3.Implies(z3.And(inr(l), inr(m), larger_first(ca.get, ma.get, l, m)), place(l) < place(m)), patterns=[z3.MultiPattern(place(l), place(m))]))
        return Arr(C, place, "unsigned long")
    ex.contracts["Cluster::sort_indexes_inverse"] = order
    return place, who


def clusters(p, keys):
    ex = p.ex
    use_dset(ex)
    use_nlist(ex)
    place, who = use_order(p)
    n = p.size("n")
    p.require(n < 0x7fffffff)
    nq = neighbor_query(p, np=n)
    nl = neighbor_list(p)
    p.require(z3.And(nl.nq == n, nl.np == n))
    conn = z3.Function("connected", I, I, I, B)
    i, j, s = z3.FreshConst(I, "i"), z3.FreshConst(I, "j"), z3.FreshConst(I, "s")
    a, b = nl.point, nl.query
    ex.fact(FORALL([i, j], conn(0, i, j) == (i == j), patterns=[conn(0, i, j)]))
    # connected(k, i, j): by a chain of the bonds before k
    more = lambda k: FORALL([i, j], conn(k + 1, i, j) == Or(conn(k, i, j), z3.And(conn(k, i, a(k)), conn(k, b(k), j)), z3.And(conn(k, i, b(k)), conn(k, a(k), j))),
                            patterns=[conn(k + 1, i, j)])
    rng = lambda *x: z3.And(*[z3.And(y >= 0, y < n) for y in x])

    def dj():
        loc, = [x for x in ex.st.mem if x.startswith("dj#")]
        return ex.st.mem[loc].f[ROOT]

    def merged(v):
        r = dj()
        ex.fact(more(v.k))
        return z3.And(FORALL([i], z3.Implies(rng(i), z3.And(r.get(i) >= 0, r.get(i) < n))),
                      FORALL([i, j], z3.Implies(rng(i, j), (r.get(i) == r.get(j)) == conn(v.k, i, j))))
    ex.invariants["loopOverNeighbors"] = [merged]
    root, fst, lab, least = [z3.Function(q, I, I) for q in ("root", "first_member", "label", "least_member")]

    def named(v):
        """root: the representatives after all bonds.  first_member(s): the first point with representative s, n if there
        is none.  label(s): how many points before it are first members"""
        old = dj()
        loc, = [x for x in ex.st.mem if x.startswith("dj#")]
        ex.fact(FORALL([i], root(i) == old.get(i), patterns=[root(i), old.get(i)]))      # (what root stands for)
        ex.write(Ptr(loc, (ROOT,)), Arr(n, root, old.ety))
        p.ensure("number of elements", old.n == n)
        for nm, g in (("representatives are elements", FORALL([i], z3.Implies(rng(i), z3.And(root(i) >= 0, root(i) < n)), patterns=[root(i)])),
                          ("same representative exactly when connected", FORALL([i, j], z3.Implies(rng(i, j), (root(i) == root(j)) == conn(nl.n, i, j)),
                                                                                 patterns=[conn(nl.n, i, j), z3.MultiPattern(root(i), root(j))]))):
            p.lemma(nm, g)
        x = old.get(i)
        v.drop(*{a.decl() for a in apps_of(x, lambda t: t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)})
    ex.posts["loopOverNeighbors"] = [named]
    ex.fact(FORALL([i], z3.Implies(rng(i), z3.And(fst(root(i)) <= i, root(fst(root(i))) == root(i))), patterns=[root(i)]))
    ex.fact(FORALL([s], z3.And(fst(s) >= 0, fst(s) <= n, z3.Implies(fst(s) < n, root(fst(s)) == s)), patterns=[fst(s)]))
    F = prefix_sum(p, lambda m: z3.If(fst(root(m)) == m, 1, 0), "numbers of first members", upper=1)
    ex.fact(FORALL([s], lab(s) == z3.If(fst(s) < n, F(fst(s)), n), patterns=[lab(s)]))
    size = ranks(p, lambda q: lab(root(q)), "points of a label")

    def labelling(v):
        loc = [x for x in ex.st.mem if x.startswith("cluster_reindex#")]
        return v.nest == 0 and not loc

    def labels(v):
        if not labelling(v):
            return None
        return z3.And(at(ex, v.this, "m_num_clusters") == F(v.k), FORALL([s], z3.Implies(rng(s), v["cluster_label"].get(s) == z3.If(fst(s) < v.k, F(fst(s)), n))))

    def smallest(v):
        if not labelling(v):
            return None
        m = v["cluster_min_id"].get
        return FORALL([s], z3.Implies(z3.And(s >= 0, s < F(v.k)), z3.And(m(s) >= 0, m(s) < v.k, fst(root(m(s))) == m(s), F(m(s)) == s)))

    def sizes(v):
        if not labelling(v):
            return None
        ex.fact(lab(root(v.k)) == z3.If(fst(root(v.k)) < n, F(fst(root(v.k))), n))
        return FORALL([s], z3.Implies(rng(s), v["cluster_label_count"].get(s) == size(v.k, s)))
    Rk = ranks(p, lambda q: place(lab(root(q))), "points of an index") if keys is not None else None

    def listed(v):
        """the keys of each index' points are listed in order of the points"""
        if labelling(v) or keys is None:
            return None
        l = at(ex, v.this, "m_cluster_keys").get(place(lab(root(i))))
        return FORALL([i], z3.Implies(z3.And(i >= 0, i < v.k), l.get(Rk(i, place(lab(root(i))))) == (at(ex, ka, i) if keys else i)), patterns=[root(i)])
    ks, ka = arr_ptr(ex, "keys", n, "unsigned int")
    ex.invariants["compute"] = [labels, smallest, sizes, listed]

    def labelled(v):
        if labelling(v):
            v.becomes("cluster_label", Arr(n, lab))
            v.becomes("cluster_label_count", Arr(n, lambda l: size(n, l)))
            old = v["cluster_min_id"]
            ex.fact(FORALL([s], least(s) == old.get(s), patterns=[least(s)]))      # (what least stands for)
            p.lemma("every label has its first member", FORALL([s], z3.Implies(z3.And(s >= 0, s < F(n)), z3.And(least(s) >= 0, least(s) < n, fst(root(least(s))) == least(s), F(least(s)) == s)),
                                                               patterns=[least(s)]))
            ex.write(v.ptr("cluster_min_id"), Arr(n, least, old.ety))
    ex.posts["compute"] = [labelled]
    c = ex.alloc(ex.default("freud::cluster::Cluster"))
    ex.method(c, "compute", ex.alloc(nq.ptr), ex.alloc(nl.ptr), ex.alloc(UNDEF), ks if keys else NULL)
    p.not_thrown()
    return ex, c, n, nl, conn, rng, F, place, who, lab, root, fst, least, size, Rk, ka


@proof(TU, sizes=["n", "nl_bonds"])
def components(p):
    """same index exactly for connected points; indices without gaps, by decreasing size, ties by first member"""
    ex, c, n, nl, conn, rng, F, place, who, lab, root, fst, least, size, Rk, ka = clusters(p, None)
    i, j = p.int("i"), p.int("j")
    p.require(rng(i, j))
    out = at(ex, c, "m_cluster_idx")
    idx = lambda i: at(ex, out, "flat", i)
    nc = at(ex, c, "m_num_clusters")
    p.ensure("one index per point", at(ex, out, "flat").n == n)
    p.lemma("number of clusters", nc == F(n))
    ci = lambda i: place(lab(root(i)))
    p.lemma("index of i", idx(i) == ci(i))
    p.lemma("index of j", idx(j) == ci(j))
    for q in (i, j):
        p.lemma("label in range", z3.And(lab(root(q)) >= 0, lab(root(q)) < nc, lab(root(q)) == F(fst(root(q)))))
    p.lemma("same label, same representative", (lab(root(i)) == lab(root(j))) == (root(i) == root(j)))
    p.ensure("same index exactly when connected by bonds", (idx(i) == idx(j)) == conn(nl.n, i, j))
    p.ensure("indices in range", z3.And(idx(i) >= 0, idx(i) < nc))
    # every index is used, larger clusters come first
    x, y = p.int("x"), p.int("y")
    p.require(z3.And(x >= 0, x < nc, y >= 0, y < nc))
    first = lambda x: least(who(x))
    p.lemma("first member of a label", z3.And(who(x) >= 0, who(x) < nc, first(x) >= 0, first(x) < n, root(first(x)) >= 0, root(first(x)) < n))
    p.lemma("its label", lab(root(first(x))) == who(x))
    p.ensure("every index below the number of clusters is used", idx(first(x)) == x)
    p.ensure("by its first member first", z3.Implies(idx(i) == x, first(x) <= i))
    size_of = lambda x: SUM(n, lambda q: z3.If(idx(q) == x, 1, 0))
    q = p.int("q")
    for z in (x, y):
        p.lemma("points of the index", z3.Implies(rng(q), (idx(q) == z) == (lab(root(q)) == who(z))))
        p.lemma("size of the cluster", size_of(z) == size(n, who(z)))
    p.lemma("the places give the order", z3.Implies(x < y, z3.And(size(n, who(x)) >= size(n, who(y)), z3.Implies(size(n, who(x)) == size(n, who(y)), first(x) < first(y)))))
    p.ensure("in order of decreasing size", z3.Implies(x < y, size_of(x) >= size_of(y)))
    p.ensure("equal sizes in order of the first members", z3.Implies(z3.And(x < y, size_of(x) == size_of(y)), first(x) < first(y)))
    p.reach()


def mkkeys(keys):
    def f(p):
        ex, c, n, nl, conn, rng, F, place, who, lab, root, fst, least, size, Rk, ka = clusters(p, keys)
        i, x = p.int("i"), p.int("x")
        out = at(ex, c, "m_cluster_idx")
        idx = lambda i: at(ex, out, "flat", i)
        p.require(z3.And(rng(i), x >= 0, x < at(ex, c, "m_num_clusters")))
        ck = at(ex, c, "m_cluster_keys")
        p.ensure("one list per cluster", ck.n == at(ex, c, "m_num_clusters"))
        p.ensure("as many keys as points", ck.get(x).n == SUM(n, lambda q: z3.If(idx(q) == x, 1, 0)))
        p.lemma("index of i", idx(i) == place(lab(root(i))))
        r = SUM(i, lambda q: z3.If(idx(q) == idx(i), 1, 0))
        p.lemma("earlier points of the same index", r == Rk(i, place(lab(root(i)))))
        p.ensure("the key of each point follows those of the earlier points of its cluster", ck.get(idx(i)).get(r) == (at(ex, ka, i) if keys else i))
        p.reach()
    f.__name__ = "given_keys" if keys else "default_keys"
    f.__doc__ = "the keys of a cluster are those of its points, in order" if keys else "without keys: the points of the cluster, in order"
    return f


for _k in (True, False):
    proof(TU, sizes=["n", "nl_bonds"])(mkkeys(_k))
