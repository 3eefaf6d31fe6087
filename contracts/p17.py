"""P17: periodic buffer."""
from .lib import *

TU = "locality/PeriodicBuffer.cc"
ASSUMPTIONS = ["Box::wrap and Box::makeFractional are used through their contracts (uninterpreted functions of box and vector; proved in P01)"]
FRACS = [z3.Function(f"frac{c}", *([R] * 9), B, B, B, B, R) for c in "xyz"]


def frac_contract(ex, args, this):
    v, b = ex.rd(args[0]), ex.read(this)
    a = [to_real(x) if x.sort() == I else x for x in wrap_args(b, v)]
    a = [canon(x) if x.sort() == R else simp(x) for x in a]
    return vec(*[w(*a) for w in FRACS])


@proof(TU)
def rejects(p):
    """negative buffer distances are rejected"""
    ex = p.ex
    nq = neighbor_query(p, np=iv(0))
    bx = [p.real("buff" + c) for c in "xyz"]
    ex.invariants["compute"] = []
    b = ex.alloc(ex.default("freud::locality::PeriodicBuffer"))
    ex.contracts["Box::makeFractional/1"] = frac_contract
    use_wrap(ex)
    ex.method(b, "compute", ex.alloc(nq.ptr), from_list(bx, "float"), p.bool("use_images"), p.bool("include"))
    p.ensure("throws exactly on negative distances", p.thrown() == Or(*[x < 0 for x in bx]))


def run(p, use_images, two):
    ex = p.ex
    use_wrap(ex)
    ex.contracts["Box::makeFractional/1"] = frac_contract
    sysbox = p.box(2 if two else 3)
    box = ex.read(sysbox.ptr)
    nq = neighbor_query(p, box=box)
    p.require(nq.np < 0xffffffff)
    buff = [p.real("buff" + c) for c in "xyz"]
    include = p.bool("include")
    p.require(z3.And(*[x >= 0 for x in buff]))
    L = [sysbox.L[0], sysbox.L[1], rv(0) if two else sysbox.L[2]]
    lat = [comps(ex.method(sysbox.ptr, "getLatticeVector", iv(c))) for c in range(2 if two else 3)]
    # numbers of images on each side
    ceil = lambda x: -z3.ToInt(-x)
    arg = [buff[c] if use_images else fdiv(buff[c], L[c]) for c in range(2 if two else 3)]
    n = [p.int("n" + c) for c in "xyz"[:len(arg)]]
    for m, x in zip(n, arg):
        ex.fact(z3.And(m == ceil(x), x <= m, m < x + 1))
    ex.dynamic["ceil"] = [lambda t, m=m, x=x: z3.ToReal(m) if simp(t).eq(simp(x)) else None for m, x in zip(n, arg)]
    if two:
        n.append(iv(0))
    for c in range(2 if two else 3):
        p.lemma(f"number of images along {'xyz'[c]} is not negative", n[c] >= 0)
    lo = [iv(0) if use_images else -x for x in n]
    # candidates (point, i, j, k) in row-major order
    cell = z3.Function("candidate", I, I, I, I, I)
    C = [z3.Function("candidate_" + c, I, I) for c in "pijk"]
    P_, i, j, k, P1, i1, j1, k1 = [z3.FreshConst(I, c) for c in ("P", "i", "j", "k", "P", "i", "j", "k")]
    mp = z3.MultiPattern
    nxt = [(k1 == k + 1, cell(P_, i, j, k), cell(P_, i, j, k1), 1),
           (z3.And(j1 == j + 1, k == n[2] + 1), cell(P_, i, j, k), cell(P_, i, j1, lo[2]), 0),
           (z3.And(i1 == i + 1, j == n[1] + 1), cell(P_, i, j, lo[2]), cell(P_, i1, lo[1], lo[2]), 0),
           (z3.And(P1 == P_ + 1, i == n[0] + 1), cell(P_, i, lo[1], lo[2]), cell(P1, lo[0], lo[1], lo[2]), 0)]
    vs = [[P_, i, j, k, k1], [P_, i, j, k, j1], [P_, i, j, i1], [P_, i, P1]]
    for w, (pre, a, b, d) in zip(vs, nxt):
        ex.fact(FORALL(w, z3.Implies(pre, b == a + d), patterns=[mp(a, b)]))
    first = lambda t: cell(t, *lo)
    ex.fact(first(iv(0)) == 0)
    inr = z3.And(P_ >= 0, P_ < nq.np, *[z3.And(x >= lo[c], x <= n[c]) for c, x in enumerate((i, j, k))])
    cc = cell(P_, i, j, k)
    total = first(nq.np)
    ex.fact(FORALL([P_, i, j, k], z3.Implies(inr, z3.And(cc >= 0, cc < total, C[0](cc) == P_, C[1](cc) == i, C[2](cc) == j, C[3](cc) == k)), patterns=[cc]))
    x = z3.FreshConst(I, "x")
    dec = [f(x) for f in C]
    ex.fact(FORALL([x], z3.Implies(z3.And(x >= 0, x < total), z3.And(dec[0] >= 0, dec[0] < nq.np, *[z3.And(dec[c + 1] >= lo[c], dec[c + 1] <= n[c]) for c in range(3)], cell(*dec) == x)),
                   patterns=[f(x) for f in C]))
    # which candidates are wanted
    pb = ex.default("freud::locality::PeriodicBuffer")
    this = ex.alloc(pb)
    size = [(1 + z3.ToReal(n[c])) * L[c] if use_images else L[c] + 2 * buff[c] for c in range(3)]
    bbox = ex.new("Box", *size, *sysbox.tilt, z3.BoolVal(two))
    image = lambda q, i, j, k: [a + sum(z3.ToReal(m) * l[d] for m, l in zip((i, j, k), lat)) for d, a in enumerate(comps(elem(ex, Ptr(nq.points.loc, (q,)))))]
    place = [z3.Function("place_" + c, I, I, I, I, R) for c in "xyz"]
    wanted = z3.Function("wanted", I, I)

    def instance(q, i, j, k):
        """definition of place and wanted at one candidate"""
        pt = vec(*image(q, i, j, k))
        if use_images:
            at_, ins = comps(WRAP(ex, bbox, pt)), TRUE
        else:
            at_ = comps(pt)
            f = comps(frac_contract(ex, [pt], bbox))
            ins = z3.And(*[z3.And(0 <= f[c], f[c] < 1) for c in range(2 if two else 3)])
        skip = z3.And(Not(include), i == 0, j == 0, k == 0)
        ex.fact(z3.And(*[g(q, i, j, k) == a for g, a in zip(place, at_)]))
        ex.fact(wanted(cell(q, i, j, k)) == z3.If(z3.And(ins, Not(skip)), 1, 0))
    ex.fact(FORALL([x], z3.And(wanted(x) >= 0, wanted(x) <= 1), patterns=[wanted(x)]))
    rank = prefix_sum(p, wanted, "numbers of wanted images")
    p.require(rank(total) < 0x7fffffff)
    mem = z3.Function("image_at", I, I)
    ex.fact(FORALL([x], z3.Implies(z3.And(x >= 0, x < rank(total)), z3.And(mem(x) >= 0, mem(x) < total, wanted(mem(x)) == 1, rank(mem(x)) == x)), patterns=[mem(x)]))
    g = z3.Implies(z3.And(x >= 0, x < total, wanted(x) == 1), mem(rank(x)) == x)
    p.ensure("lemma wanted images have their places", g)
    ex.fact(FORALL([x], g, patterns=[mem(rank(x))]))

    def here(v):
        if v.nest == 0:
            return first(v["point_id"])
        return cell(v["point_id"], *[v[c] for c in "ijk"[:v.nest]], *lo[v.nest:])
    buf = lambda v, f: at(ex, at(ex, v.this, f))
    pts, ids = "m_buffer_points", "m_buffer_ids"

    def position(v):
        if v.nest == 3:
            instance(v["point_id"], v["i"], v["j"], v["k"])
        elif v.nest == 2 and two:
            instance(v["point_id"], v["i"], v["j"], iv(0))
        h = here(v)
        return z3.And(h >= 0, h <= total)

    def sizes(v):
        return z3.And(buf(v, pts).n == rank(here(v)), buf(v, ids).n == rank(here(v)))
    want = lambda x: [g(*[f(mem(x)) for f in C]) for g in place]

    def points(d):
        def content(v):
            x = z3.Int("entry")
            return FORALL([x], z3.Implies(z3.And(x >= 0, x < rank(here(v))), comps(buf(v, pts).get(x))[d] == want(x)[d]))
        return content

    def originals(v):
        x = z3.Int("entry")
        return FORALL([x], z3.Implies(z3.And(x >= 0, x < rank(here(v))), buf(v, ids).get(x) == C[0](mem(x))))

    def leave(v):
        """after the loop: the images of all candidates before the next one"""
        if v.nest == 0:
            end = total
        else:
            vs = [v["point_id"]] + [v[c] for c in "ijk"[:v.nest - 1]]
            end = cell(*vs[:-1], vs[-1] + 1, *lo[v.nest - 1:])
        e = rank(end)
        p_ = lambda f: at(ex, v.this, f)
        v.becomes(p_(pts), Arr(e, lambda x: vec(*want(x))))
        v.becomes(p_(ids), Arr(e, lambda x: C[0](mem(x)), "unsigned int"))
    ex.posts["compute"] = [leave]
    ex.invariants["compute"] = [position, sizes, originals] + [points(d) for d in range(3)]
    ex.method(this, "compute", ex.alloc(nq.ptr), from_list(buff, "float"), z3.BoolVal(use_images), include)
    p.not_thrown()
    bp, bi = at(ex, at(ex, this, pts)), at(ex, at(ex, this, ids))
    p.ensure("number of buffer points", z3.And(bp.n == rank(total), bi.n == rank(total)))
    y = p.int("entry")
    iny = z3.And(y >= 0, y < rank(total))
    w = want(y)
    for d in range(3):
        p.ensure(f"buffer points are the wanted images, in order ({'xyz'[d]})", z3.Implies(iny, comps(bp.get(y))[d] == w[d]))
    p.ensure("buffer ids name their originals", z3.Implies(iny, bi.get(y) == C[0](mem(y))))
    p.eq("buffer box", at(ex, this, "m_buffer_box"), ex.read(bbox))
    p.eq("box", at(ex, this, "m_box"), box)
    p.reach()


@proof(TU, timeout=150)
def padded_3d(p):
    """exactly the images inside the padded box, each once, with its original"""
    run(p, False, False)


@proof(TU, timeout=150)
def padded_2d(p):
    run(p, False, True)


@proof(TU, timeout=150)
def images_3d(p):
    """the requested number of images, wrapped into the larger box"""
    run(p, True, False)


@proof(TU, timeout=150)
def images_2d(p):
    run(p, True, True)


@proof(TU)
def enough_images(p):
    """no image of a point in the box that is farther away than the images tried lies inside the padded box"""
    ex = p.ex
    for two in (True, False):
        sysbox = p.box(2 if two else 3, nm="flat" if two else "")
        dims = 2 if two else 3
        tag = " (2D)" if two else ""
        L = [sysbox.L[0], sysbox.L[1], rv(0) if two else sysbox.L[2]]
        buff = [p.real("buff" + c) for c in "xyz"]
        p.require(z3.And(*[x >= 0 for x in buff]))
        bbox = ex.new("Box", *[L[c] + 2 * buff[c] for c in range(3)], *sysbox.tilt, z3.BoolVal(two))
        s = [p.real("s" + c) for c in "xyz"]
        p.require(z3.And(*[z3.And(x >= 0, x < 1) for x in s[:dims]]))
        pt = comps(ex.method(sysbox.ptr, "makeAbsolute", ex.alloc(vec(*s)), nparams=1))
        lat = [comps(ex.method(sysbox.ptr, "getLatticeVector", iv(c))) for c in range(dims)]
        m = [p.int("image" + c) for c in "xyz"[:dims]]
        img = [a + sum(z3.ToReal(q) * l[d] for q, l in zip(m, lat)) for d, a in enumerate(pt)]
        f = comps(ex.method(bbox, "makeFractional", ex.alloc(vec(*img)), nparams=1))
        for c in range(dims):
            n = p.int("n" + "xyz"[c])
            nL, nb = L[c], buff[c]
            width = nL + 2 * nb
            g = f[c] * width
            nm = f"{'xyz'[c]}{tag}"
            mid = z3.ToReal(m[c]) * nL + s[c] * nL + nb
            p.lemma(f"place in the padded box along {nm}", g == mid)
            p.lemma(f"inside along {nm}", z3.Implies(z3.And(f[c] >= 0, f[c] < 1), z3.And(mid >= 0, mid < width)))
            p.ensure(f"images inside are among those tried along {nm}",
                     z3.Implies(z3.And(nb <= z3.ToReal(n) * nL, mid >= 0, mid < width), z3.And(-n <= m[c], m[c] <= n)))
    p.reach()
