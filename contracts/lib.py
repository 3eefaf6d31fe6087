"""Contracts shared by several properties: the callee side is proved in the
property that owns it, callers use the contract (ex.contracts)."""
from vc.api import *
from vc.models import use_real_managed_array, cx, is_cx, cos_, sin_, ATAN2, ACOS, EXP

BOX_TU = "driver:drv_box.cc"


def floorfrac(x):
    return x - z3.ToReal(z3.ToInt(x))


def modpos_contract(ex, args, this):
    """util::modulusPositive(x, y) == x - y floor(x/y) for y > 0  (proved in P01)"""
    x, y = [to_real(ex.rd(a)) for a in args]
    if z3.is_rational_value(simp(y)) and simp(y).as_fraction() == 1:
        return floorfrac(x)
    ex.oblige(f"precondition of modulusPositive: positive modulus in {ex.cur()}", y > 0)
    return modp(x, y)


MODP = z3.Function("modp", R, R, R)


def modp(x, y):
    return MODP(simp(x), simp(y))


WRAPS = [z3.Function(f"wrap{c}", *([R] * 6), *([R] * 3), B, B, B, B, R) for c in "xyz"]
LAT = [z3.Function(f"lat{c}", *([R] * 6), *([R] * 3), B, B, B, B, I) for c in "xyz"]


def wrap_args(b, v):
    """the abstract arguments of the wrap function"""
    L = b.f["m_L"]
    p = b.f["m_periodic"]
    return [L.f["x"], L.f["y"], L.f["z"], b.f["m_xy"], b.f["m_xz"], b.f["m_yz"],
            v.f["x"], v.f["y"], v.f["z"], p.f["x"], p.f["y"], p.f["z"], b.f["m_2d"]]


def wrap_contract(ex, args, this):
    """Box::wrap(v): an uninterpreted function of the box and the vector (its
    defining property is proved in P01)"""
    v = ex.rd(args[0])
    b = ex.read(this)
    a = [to_real(x) if x.sort() == I else x for x in wrap_args(b, v)]
    a = [canon(x) if x.sort() == R else simp(x) for x in a]
    return vec(*[w(*a) for w in WRAPS])


def use_wrap(ex):
    ex.contracts["Box::wrap/1"] = wrap_contract


def WRAP(ex, box, v):
    return wrap_contract(ex, [v], box)


ROTF = [z3.Function(f"rot{c}", *([R] * 7), R) for c in "xyz"]


def ROT(q, v):
    """v rotated by the quaternion q: an uninterpreted function (what it is: P20 rotation)"""
    a = [canon(to_real(x)) for x in (q.f["s"], *comps(q.f["v"]), *comps(v))]
    return vec(*[f(*a) for f in ROTF])


def use_rotate(ex):
    """rotate(quat, vec3) by its contract (proved in P20: rotation)"""
    def rot(e, args, this):
        q, v = e.rd(args[0]), e.rd(args[1])
        if not (isinstance(v, Struct) and set(v.f) == {"x", "y", "z"} and "s" in q.f):
            raise Unsupported("rotate of something else")
        return ROT(q, v)
    ex.contracts["rotate"] = rot


def qrot(q, v):
    """v rotated by the quaternion q = (s, u):  (s^2-u.u) v + 2s u x v + 2 (u.v) u"""
    s, u = q.f["s"], comps(q.f["v"])
    uu = u[0] * u[0] + u[1] * u[1] + u[2] * u[2]
    uv = u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
    cr = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return tuple((s * s - uu) * v[i] + 2 * s * cr[i] + 2 * uv * u[i] for i in range(3))


def qconj(q):
    return Struct(q.cls, {"s": q.f["s"], "v": vec(*[-c for c in comps(q.f["v"])])})


def use_modpos(ex):
    ex.contracts["modulusPositive"] = modpos_contract


def norm2(v):
    x, y, z = comps(v)
    return x * x + y * y + z * z


def elem(ex, ptr, *idx):
    return ex.read(Ptr(ptr.loc, ptr.path + tuple(idx)))


def arr_ptr(ex, name, n, t="vec3<float>"):
    """pointer to the first element of a symbolic array of n elements"""
    a = ex.alloc(ex.sym_array(name, n, t), name)
    return Ptr(a.loc, (iv(0),)), a


class Obj:
    pass


def _ma(ex, name, shape, et, flat=None, nest=None):
    cls = f"ManagedArray<{et}>"
    n = iv(1)
    for s in shape:
        n = simp(n * s)
    return ex.alloc(Struct(cls, {"shape": from_list(shape, "unsigned long"),
                                 "flat": flat if flat is not None else ex.sym_array(name + "_flat", n, et),
                                 "nest": nest if nest is not None else ex.sym_array(name + "_nest", n, et),
                                 "tag": MaTag("flat" if nest is None else "nest")}), name)


def neighbor_list(p, nm="nl", B=None):
    """an arbitrary neighbour list: B bonds, arbitrary contents"""
    ex = p.ex
    o = Obj()
    o.n = B if B is not None else p.size(nm + "_bonds")
    p.require(o.n <= 0x7fffffff)
    q, i = z3.Function(nm + "_query", I, I), z3.Function(nm + "_point", I, I)
    d, w = z3.Function(nm + "_dist", I, R), z3.Function(nm + "_weight", I, R)
    v = [z3.Function(nm + "_v" + c, I, R) for c in "xyz"]
    o.nq, o.np = p.nat(nm + "_nqp"), p.nat(nm + "_np")
    o.query, o.point, o.distance, o.weight = q, i, d, w
    o.vector = lambda k: vec(v[0](k), v[1](k), v[2](k))
    nb = _ma(ex, nm + "_nb", [o.n, iv(2)], "unsigned int",
             nest=Arr(o.n, lambda k: Arr(iv(2), lambda c: z3.If(c == 0, q(k), i(k)), "unsigned int"), "unsigned int"))
    ds = _ma(ex, nm + "_ds", [o.n], "float", flat=Arr(o.n, lambda k: d(k), "float"))
    ws = _ma(ex, nm + "_ws", [o.n], "float", flat=Arr(o.n, lambda k: w(k), "float"))
    vs = _ma(ex, nm + "_vs", [o.n], "vec3<float>", flat=Arr(o.n, o.vector, "vec3<float>"))
    o.ptr = ex.alloc(Struct("NeighborList", {
        "m_num_query_points": o.nq, "m_num_points": o.np, "m_neighbors": nb, "m_distances": ds, "m_weights": ws,
        "m_vectors": vs, "m_segments_counts_updated": FALSE,
        "m_counts": _ma(ex, nm + "_c", [o.nq], "unsigned int"), "m_segments": _ma(ex, nm + "_s", [o.nq], "unsigned int")}), nm)
    k = z3.FreshConst(I, "k")
    ex.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < o.n), z3.And(q(k) >= 0, q(k) < o.nq, i(k) >= 0, i(k) < o.np)), patterns=[q(k), i(k)]))
    return o


def neighbor_query(p, nm="sys", box=None, np=None):
    """an arbitrary neighbour query object (any subclass: only the base-class data is used)"""
    ex = p.ex
    o = Obj()
    o.box = box if box is not None else ex.symbolic(nm + "_box", "freud::box::Box")
    o.np = np if np is not None else p.nat(nm + "_np")
    o.points, _ = arr_ptr(ex, nm + "_points", o.np)
    o.ptr = ex.alloc(Struct("NeighborQuery", {"m_box": o.box, "m_points": o.points, "m_n_points": o.np}), nm)
    return o


def use_nlist(ex):
    """NeighborList accessors defined out of line (proved in P06)"""
    ex.contracts["NeighborList::getNumBonds"] = lambda e, a, this: from_ma_size(e, this)
    ex.contracts["NeighborList::getNumQueryPoints"] = lambda e, a, this: e.read(Ptr(this.loc, this.path + ("m_num_query_points",)))
    ex.contracts["NeighborList::getNumPoints"] = lambda e, a, this: e.read(Ptr(this.loc, this.path + ("m_num_points",)))


def runs(p, nl):
    """seg(i), cnt(i): the bonds of query point i in a list sorted by query point are seg(i) .. seg(i) + cnt(i) - 1"""
    nl.seg, nl.cnt = z3.Function("nl_seg", I, I), z3.Function("nl_cnt", I, I)
    i, k = z3.FreshConst(I, "i"), z3.FreshConst(I, "k")
    ex = p.ex
    ex.fact(z3.ForAll([i], z3.And(nl.seg(i) >= 0, nl.cnt(i) >= 0, nl.seg(i) + nl.cnt(i) <= nl.n), patterns=[nl.seg(i)]))
    ex.fact(z3.ForAll([i], z3.And(nl.seg(i) >= 0, nl.cnt(i) >= 0, nl.seg(i) + nl.cnt(i) <= nl.n), patterns=[nl.cnt(i)]))
    ex.fact(z3.ForAll([i, k], z3.Implies(z3.And(k >= 0, k < nl.cnt(i)), nl.query(nl.seg(i) + k) == i), patterns=[nl.query(nl.seg(i) + k)]))


def use_cursor(p, nl):
    """Per-point iteration over the list nl (proved in P09: cursor_*): the g-th call of next()
    on the iterator of point i returns bond seg(i) + g - 1 while g <= cnt(i); after g >= 1
    calls end() is g > cnt(i).  next() must not be called again once end() holds, end() not
    before the first next() (obligations on the caller)."""
    ex = p.ex
    runs(p, nl)

    def fld(this, n):
        return Ptr(this.loc, this.path + (n,))

    def nxt(e, a, this):
        i = e.read(fld(this, "m_query_point_idx"))
        g = e.read(fld(this, "m_current_index"))
        e.oblige(f"precondition of next: not ended in {e.cur()}", z3.And(g >= nl.seg(i), g <= nl.seg(i) + nl.cnt(i)), "pre")
        e.write(fld(this, "m_current_index"), simp(g + 1))
        return bond(nl, g)

    def end(e, a, this):
        i = e.read(fld(this, "m_query_point_idx"))
        g = e.read(fld(this, "m_current_index"))
        e.oblige(f"precondition of end: after next in {e.cur()}", g > nl.seg(i), "pre")
        return g > nl.seg(i) + nl.cnt(i)
    ex.contracts["NeighborList::find_first_index"] = lambda e, a, this: nl.seg(to_int(e.rd(a[0])))
    ex.contracts["NeighborListPerPointIterator::next"] = nxt
    ex.contracts["NeighborListPerPointIterator::end"] = end


def bond(nl, k):
    return Struct("freud::locality::NeighborBond", {"query_point_idx": nl.query(k), "point_idx": nl.point(k), "distance": nl.distance(k),
                                                    "weight": nl.weight(k), "vector": nl.vector(k)})


def from_ma_size(e, this):
    nb = e.read(Ptr(this.loc, this.path + ("m_neighbors",)))
    return e.read(Ptr(nb.loc, nb.path + ("shape", iv(0))))


AXBIN = z3.Function("axis_bin", I, R, R, R, I)
OVF = 0xffffffff


def canon(v):
    """polynomial normal form (so that equal coordinates are the same argument)"""
    return poly.Norm(lambda t: False, lambda t: False).canon(simp(v))


def axbin_facts(n, lo, hi, v):
    b = AXBIN(n, lo, hi, v)
    return z3.And(z3.Or(b == OVF, z3.And(b >= 0, b < n)), (b == OVF) == z3.Or(v < lo, v >= hi))


def use_axis(ex):
    """RegularAxis::bin(v): the bin whose edges enclose v, or the overflow marker
    when v is outside the range (proved in P04: axis_bin)"""
    def bin_(e, args, this):
        v = to_real(e.rd(args[0]))
        o = e.read(this)
        a = (o.f["m_nbins"], o.f["m_min"], o.f["m_max"])
        v = canon(v)
        e.fact(axbin_facts(*a, v))
        e.oblige(f"precondition of RegularAxis::bin: fewer than {OVF} bins in {e.cur()}", z3.And(a[0] >= 1, a[0] < OVF))
        return AXBIN(*a, v)
    ex.contracts["RegularAxis::bin"] = bin_

    def hbin_(e, args, this):
        """Histogram::bin: the row-major combination of the axis bins, or the overflow
        marker when a value is outside its axis' range (proved in P04: histogram_*d)"""
        vals = args[0]
        if isinstance(vals, (Ptr, PIte)):
            vals = e.read(vals)
        h = e.read(this)
        ax = h.f["m_axes"]
        d = simp(ax.n)
        if not (z3.is_int_value(d) and z3.is_int_value(simp(vals.n)) and d.as_long() == simp(vals.n).as_long()):
            raise Unsupported("number of values binned")
        axes = [axdata(e, h, k) for k in range(d.as_long())]
        for a in axes:
            e.oblige(f"precondition of Histogram::bin: fewer than {OVF} bins in {e.cur()}", z3.And(a[0] >= 1, a[0] < OVF))
        b = hbin(axes, [to_real(vals.get(iv(k))) for k in range(len(axes))])
        tot = axes[0][0]
        for a in axes[1:]:
            tot = tot * a[0]
        e.fact(z3.Or(b == OVF, z3.And(b >= 0, b < tot)))
        if len(axes) == 1:
            e.fact(axbin_facts(*axes[0], canon(to_real(vals.get(iv(0))))))
        return b
    ex.contracts["Histogram::bin"] = hbin_


def hbin(axes, vals):
    """position of the values' bin: for one axis its bin, for several the row-major combination (an uninterpreted
    function of the axes and values here; what it is is P04)"""
    vals = [canon(v) for v in vals]
    if len(axes) == 1:
        return AXBIN(*axes[0], vals[0])
    f = z3.Function(f"hist_bin{len(axes)}", *([I, R, R, R] * len(axes)), I)
    return f(*[x for a, v in zip(axes, vals) for x in (*a, v)])


# ---------------------------------------------------------------- histograms (model arrays)
def at(ex, obj, *path):
    return ex.read(Ptr(obj.loc, obj.path + tuple(path)))


def counts_of(p, h):
    return h.f["m_bin_counts"]


def local_counts(p, r, n, field="m_local_histograms", nm="cnt", ety="unsigned int"):
    """arbitrary earlier counts in the executing thread's histogram"""
    ex = p.ex
    h = at(ex, r, field, "m_local_histograms", "items", iv(0))
    bc = h.f["m_bin_counts"]
    flat_tag(ex.read(bc))
    old = ex.sym_array(nm, n, ety)
    ex.write(Ptr(bc.loc, ("flat",)), old)
    return h, bc, old


def flat_tag(v):
    if v.f["tag"].decide("flat") != "flat":
        raise Unsupported("array used through its nested view")
    return v.f["tag"]


def thread_items(p, r, field, T, n, nm="th", ety="unsigned int"):
    """T threads, each with its own arbitrary counts f(t, j)"""
    ex = p.ex
    h = at(ex, r, field, "m_local_histograms", "items", iv(0))
    proto = ex.read(h.f["m_bin_counts"])
    f = z3.Function(nm, I, I, R if ety == "float" else I)
    if ety == "unsigned int":
        t, j = z3.FreshConst(I), z3.FreshConst(I)
        ex.fact(z3.ForAll([t, j], f(t, j) >= 0))
    arr = ex.alloc(Arr(T, lambda t: Struct(proto.cls, {"shape": proto.f["shape"], "flat": Arr(n, lambda j: f(t, j), ety),
                                                  "nest": proto.f["nest"], "tag": flat_tag(proto)})), nm)
    items = Arr(T, lambda t: Struct(h.cls, dict(h.f, m_bin_counts=Ptr(arr.loc, (t,)))))
    ex.write(Ptr(r.loc, r.path + (field, "m_local_histograms", "items")), items)
    return f


def stale(p, r, *fields, hist="m_histogram"):
    """results of some earlier reduction: arbitrary contents, and arbitrary merged counts"""
    ex = p.ex
    ptrs = [(f, at(ex, r, f)) for f in fields]
    ptrs.append(("merged", counts_of(p, at(ex, r, hist))))
    for nm, q in ptrs:
        v = ex.read(q)
        flat_tag(v)
        a = v.f["flat"]
        e0 = a.get(iv(0))
        ty = e0.cls if isinstance(e0, Struct) else ("float" if e0.sort() == R else "unsigned int")
        ex.write(Ptr(q.loc, q.path + ("flat",)), ex.sym_array("stale_" + nm, a.n, ty))


def undisturbed(p, r, items, T, i, get, hist="m_local_histograms"):
    """reading leaves every thread's sums and the frame counter as they were, and reading
    again (also after a merge forced anew) gives the same; items: (field, f) with f(t, j) the
    counts before; get(): the values read"""
    ex = p.ex
    t = p.int("t")
    rng = z3.And(t >= 0, t < T)

    def kept(nm):
        for field, f in items:
            h = at(ex, r, field, "m_local_histograms", "items")
            p.ensure(f"threads, {nm}", h.n == T)
            v, w = at(ex, h.get(t).f["m_bin_counts"], "flat", i), f(t, i)
            for a, b in (((v.f[c], w[c]) for c in w) if isinstance(w, dict) else ((v, w),)):
                p.ensure(f"a thread's sums are kept, {nm}", z3.Implies(rng, a == b))
        p.ensure(f"frames, {nm}", at(ex, r, "m_frame_counter") == nf)
    nf = at(ex, r, "m_frame_counter")
    first = get()
    kept("first read")
    for k, nm in enumerate(("second read", "merged again")):
        if k:
            ex.write(Ptr(r.loc, ("m_reduce",)), TRUE)
        for n, (a, b) in enumerate(zip(first, get())):
            p.ensure(f"same value, {nm}", a == b)
        kept(nm)


def borrow(modname, prefix, *names):
    """register the proofs of another contract module here too, under a prefix"""
    import importlib.util
    import os
    from vc import api
    keep = list(api.PROOFS)
    path = os.path.join(os.path.dirname(__file__), modname + ".py")
    spec = importlib.util.spec_from_file_location(f"contracts.{modname}_for_{prefix}", path)
    spec_m = importlib.util.module_from_spec(spec)
    spec_m.__package__ = "contracts"
    del api.PROOFS[:]
    spec.loader.exec_module(spec_m)
    got = [x for x in api.PROOFS if any(x["name"].startswith(n) for n in names)]
    api.PROOFS[:] = keep
    for x in got:
        api.PROOFS.append(dict(x, name=f"{prefix}.{x['name']}"))
    return spec_m


def axdata(ex, hist, k):
    """(bins, lower, upper) of axis k of a histogram"""
    a = ex.read(hist.f["m_axes"].get(iv(k)))
    return a.f["m_nbins"], a.f["m_min"], a.f["m_max"]


def rowmajor(shape, idx):
    f = iv(0)
    for s, i in zip(shape, idx):
        f = f * s + i
    return f


def inbin(axes, vals, j):
    """the values fall into the bin at position j (0 <= j < number of bins < overflow marker)"""
    return hbin(axes, vals) == j


def prefix_sum(p, f, nm="prefix sums", upper=None):
    """k -> SUM_{t<k} f(t) for f >= 0, with its recursive definition and (by induction) that it grows"""
    ex = p.ex
    kk = z3.FreshConst(I, "k")
    t = SUM(kk, f)
    R = lambda k: z3.substitute(t, (kk, k))
    k = z3.FreshConst(I, "k")
    ex.fact(R(iv(0)) == 0)
    ex.fact(z3.ForAll([k], z3.Implies(k >= 0, R(k + 1) == R(k) + f(k)), patterns=[R(k + 1)]))
    a, b = z3.FreshConst(I, "a"), z3.FreshConst(I, "b")
    p.ensure(f"lemma {nm} grow: step", z3.Implies(z3.And(0 <= a, a <= b, R(a) <= R(b)), R(a) <= R(b + 1)))
    ex.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), R(a) <= R(b)), patterns=[z3.MultiPattern(R(a), R(b))]))
    if upper is not None:
        p.ensure(f"lemma {nm} are bounded: step", z3.Implies(z3.And(0 <= a, R(a) <= upper * a), R(a + 1) <= upper * (a + 1)))
        ex.fact(z3.ForAll([a], z3.Implies(0 <= a, R(a) <= upper * a), patterns=[R(a)]))
    p.ensure(f"lemma {nm} grow strictly", z3.Implies(z3.And(0 <= a, a < b), R(a) + f(a) <= R(b)))
    ex.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b), R(a) + f(a) <= R(b)), patterns=[z3.MultiPattern(R(a), R(b))]))
    return R


# ---------------------------------------------------------------- neighbour lists
FORALL = z3.ForAll


def q_sorted(p, nl):
    """bonds are sorted by query point"""
    a, b = z3.FreshConst(I, "a"), z3.FreshConst(I, "b")
    p.ex.fact(FORALL([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < nl.n), nl.query(a) <= nl.query(b)),
                     patterns=[z3.MultiPattern(nl.query(a), nl.query(b))]))


def seg_axioms(p, nl):
    """seg(i), cnt(i): the run of bonds of query point i in a sorted list (empty runs sit where they would be inserted)"""
    nl.seg, nl.cnt = z3.Function("seg", I, I), z3.Function("cnt", I, I)
    i, k = z3.FreshConst(I, "i"), z3.FreshConst(I, "k")
    p.ex.fact(FORALL([i], z3.And(nl.seg(i) >= 0, nl.cnt(i) >= 0, nl.seg(i) + nl.cnt(i) <= nl.n), patterns=[nl.seg(i)]))
    p.ex.fact(FORALL([i], z3.And(nl.seg(i) >= 0, nl.cnt(i) >= 0, nl.seg(i) + nl.cnt(i) <= nl.n), patterns=[nl.cnt(i)]))
    nl.run = lambda i, k: z3.Implies(z3.And(k >= 0, k < nl.n),
                                     z3.And((nl.query(k) == i) == z3.And(nl.seg(i) <= k, k < nl.seg(i) + nl.cnt(i)),
                                            (nl.query(k) < i) == (k < nl.seg(i))))
    p.ex.fact(FORALL([i, k], nl.run(i, k), patterns=[z3.MultiPattern(nl.seg(i), nl.query(k)), z3.MultiPattern(nl.cnt(i), nl.query(k))]))


def use_bisection(p, nl):
    def contract(e, a, this):
        v, l, r = [to_int(e.rd(x)) for x in a]
        e.oblige("precondition of bisection_search", z3.And(l >= 0, l < r, r <= nl.n), "pre")
        res = z3.Function("bisect", I, I, I, I)(v, l, r)
        e.fact(z3.Implies(z3.And(l >= 0, l < r, r <= nl.n),
                          z3.And(l <= res, res < r, z3.Implies(res > l, nl.query(res) < v), z3.Implies(res + 1 < r, nl.query(res + 1) >= v))))
        return res
    p.ex.contracts["NeighborList::bisection_search"] = contract


def fields(ex, this, k):
    """(query point, point, distance, weight, vector) stored for bond k"""
    nb = at(ex, this, "m_neighbors")
    row = at(ex, nb, "nest", k)
    return (row.get(iv(0)), row.get(iv(1)), at(ex, at(ex, this, "m_distances"), "flat", k),
            at(ex, at(ex, this, "m_weights"), "flat", k), at(ex, at(ex, this, "m_vectors"), "flat", k))


def same_bond(p, name, pre, got, want):
    """every field of the bond, under the condition pre"""
    for n, a, b in zip(("query point", "point", "distance", "weight"), got, want):
        p.ensure(f"{name}: {n}", z3.Implies(pre, a == b))
    for c, a, b in zip("xyz", comps(got[4]), comps(want[4])):
        p.ensure(f"{name}: vector {c}", z3.Implies(pre, a == b))


def rec(nl, k):
    return nl.query(k), nl.point(k), nl.distance(k), nl.weight(k), nl.vector(k)


def shape0(ex, this, f):
    return at(ex, at(ex, this, f), "shape").get(iv(0))


def sizes_are(p, this, n):
    ex = p.ex
    for f in ("m_neighbors", "m_distances", "m_weights", "m_vectors"):
        p.ensure(f"number of bonds in {f}", shape0(ex, this, f) == n)


# ---------------------------------------------------------------- grouping by an index
def ranks(p, c, nm="members"):
    """R(k, j): how many i < k have c(i) == j, with its recursive definition and (by induction) that it grows"""
    ex = p.ex
    kk, jj = z3.FreshConst(I, "k"), z3.FreshConst(I, "j")
    t = SUM(kk, lambda i: z3.If(c(i) == jj, 1, 0))
    R = lambda k, j: z3.substitute(t, (kk, k), (jj, j))
    a, b, j = z3.FreshConst(I, "a"), z3.FreshConst(I, "b"), z3.FreshConst(I, "j")
    hit = lambda i, j: z3.If(c(i) == j, 1, 0)
    ex.fact(z3.ForAll([j], R(iv(0), j) == 0))
    ex.fact(z3.ForAll([a, j], z3.Implies(a >= 0, R(a + 1, j) == R(a, j) + hit(a, j)), patterns=[R(a + 1, j)]))
    p.ensure(f"lemma number of {nm} grows: step", z3.Implies(z3.And(0 <= a, a < b, R(a, j) + hit(a, j) <= R(b, j)), R(a, j) + hit(a, j) <= R(b + 1, j)))
    p.ensure(f"lemma number of {nm} grows: base", z3.Implies(0 <= a, R(a, j) + hit(a, j) <= R(a + 1, j)))
    ex.fact(z3.ForAll([a, b, j], z3.Implies(z3.And(0 <= a, a < b), R(a, j) + hit(a, j) <= R(b, j)), patterns=[z3.MultiPattern(R(a, j), R(b, j))]))
    ex.fact(z3.ForAll([a, j], z3.Implies(a >= 0, R(a, j) >= 0), patterns=[R(a, j)]))
    p.ensure(f"lemma number of {nm} is not negative: step", z3.Implies(z3.And(0 <= a, R(a, j) >= 0), R(a + 1, j) >= 0))
    return R


def grouped_sums(p, Rk, c, n):
    """Proved for arbitrary h, w by induction: when h(R(i, j)) == w(i) for every i < n with c(i) == j, summing h over the
    members 0 .. R(n, j) - 1 of group j is summing w over the i < n with c(i) == j.  Returns use(name, j, h, w), which
    asks for the premise of one instance and adds its conclusion."""
    ex = p.ex
    h, w = z3.Function("any_member_value", I, R), z3.Function("any_index_value", I, R)
    j, k, r, kk = z3.FreshConst(I, "j"), z3.FreshConst(I, "k"), z3.FreshConst(I, "r"), z3.FreshConst(I, "kk")
    L0, S0 = SUM(kk, h), SUM(kk, lambda i: z3.If(c(i) == j, w(i), rv(0)))
    L, S = (lambda x: z3.substitute(L0, (kk, x))), (lambda x: z3.substitute(S0, (kk, x)))
    p.ensure("lemma sum over a group: base", L(Rk(iv(0), j)) == S(iv(0)))
    p.ensure("lemma sum over a group: one more member", z3.Implies(r >= 0, L(r + 1) == L(r) + h(r)))
    p.ensure("lemma sum over a group: one more index", z3.Implies(k >= 0, S(k + 1) == S(k) + z3.If(c(k) == j, w(k), rv(0))))
    p.ensure("lemma sum over a group: step",
             z3.Implies(z3.And(k >= 0, k < n, Rk(k, j) >= 0, Rk(k + 1, j) == Rk(k, j) + z3.If(c(k) == j, 1, 0),
                               L(Rk(k, j)) == S(k), z3.Implies(c(k) == j, z3.And(h(Rk(k, j)) == w(k), L(Rk(k, j) + 1) == L(Rk(k, j)) + h(Rk(k, j)))),
                               S(k + 1) == S(k) + z3.If(c(k) == j, w(k), rv(0))),
                        L(Rk(k + 1, j)) == S(k + 1)))

    def use(nm, j, hh, ww):
        i = z3.FreshConst(I, "i")
        p.ensure(f"{nm}: the members carry the values of their indices", z3.Implies(z3.And(i >= 0, i < n, c(i) == j), hh(Rk(i, j)) == ww(i)))
        ex.fact(SUM(Rk(n, j), hh) == SUM(n, lambda i: z3.If(c(i) == j, ww(i), rv(0))))
    return use


def use_default_nlist(p, nl, nq, qps, nqp):
    """makeDefaultNlist (proved in P09: default_list, default_query): the given list, or the list of the query of the
    given points; its numbers of query points and points are those of the arguments"""
    ex = p.ex
    p.require(z3.And(nl.nq == nqp, nl.np == nq.np))

    def make(e, a, this):
        q, n = a[2], e.rd(a[3])
        e.oblige(f"the list is asked for the query points in {e.cur()}", z3.And(z3.BoolVal(same(q, qps)), n == nqp), "pre")
        g = e.rd(a[0])
        e.oblige(f"the list is asked of the given system in {e.cur()}", z3.BoolVal(same(g, nq.ptr)), "pre")
        return nl.ptr
    ex.contracts["makeDefaultNlist"] = make
