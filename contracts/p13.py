"""P13: Gaussian densities and voxelisations on a grid (orthorhombic boxes)."""
import itertools
from .lib import *
from vc.models import EXP
from vc import logic
from vc.logic import unfold

ASSUMPTIONS = ["orthorhombic boxes; points inside the box (as the statement says)",
               "ThreadStorage::reduceInto adds every thread's array into the result element by element (proved for the flat array in P11; nested and flat indices correspond: P04)",
               "conversions between int and unsigned preserve the value",
               "an equality of summands proved for an arbitrary point makes the sums over the points equal",
               "forLoopWrapper's chunks taken as one sequential loop (SphereVoxelization: all iterations write the same value)"]
GD, SV = "density/GaussianDensity.cc", "density/SphereVoxelization.cc"

# ---------------------------------------------------------------- one axis
# what Box::wrap gives along an axis (proved: wrap_orthorhombic), of (length, periodic, displacement)
WR = z3.Function("wrap1", R, B, R, R)


@proof(GD)
def wrap_orthorhombic(p):
    """Box::wrap acts on every axis separately: the nearest image along periodic axes, nothing along the others"""
    ex = p.ex
    use_modpos(ex)
    for dim in (3, 2):
        Ls = [p.real(f"L{c}{dim}") for c in "xyz"]
        for L in Ls:
            p.require(L > 0)
        b = ex.new("Box", *Ls, rv(0), rv(0), rv(0), z3.BoolVal(dim == 2))
        per = [p.bool(f"per{c}{dim}") for c in "xyz"]
        ex.method(b, "setPeriodic", *per)
        v = ex.symbolic(f"v{dim}", "vec3<float>")
        if dim == 2:
            p.require(v.f["z"] == 0)
        w = ex.method(b, "wrap", ex.alloc(v), nparams=1)
        for c, L, q in zip("xyz", Ls, per):
            if dim == 2 and c == "z":
                p.ensure("2D: z stays", w.f[c] == 0)
                continue
            n = z3.ToInt(fdiv(v.f[c], L) + z3.Q(1, 2))
            p.ensure(f"{dim}D {c}: nearest image", z3.Implies(q, w.f[c] == v.f[c] - L * z3.ToReal(n)))
            p.ensure(f"{dim}D {c}: left alone when not periodic", z3.Implies(Not(q), w.f[c] == v.f[c]))
    # an image more or less of the displacement does not matter (used below)
    L, d = p.real("L"), p.real("d")
    p.require(L > 0)
    x = p.real("x")
    p.require(d == L * x)
    near = lambda t, u: t - L * z3.ToReal(z3.ToInt(u + z3.Q(1, 2)))
    for m in (-1, 1):
        p.lemma("whole numbers leave the fraction", z3.ToInt(x + m + z3.Q(1, 2)) == z3.ToInt(x + z3.Q(1, 2)) + m)
        p.ensure(f"nearest image of a displacement shifted by {m} periods", near(d + m * L, x + m) == near(d, x))
    p.reach()


def grid(p, dim):
    """an orthorhombic box; point n lies in cell bin(n), a fraction frac(n) into it"""
    ex = p.ex
    o = Obj()
    o.dim = dim
    o.r = p.real("r_max")
    p.require(o.r > 0)
    o.w = [p.int("w" + c) for c in "xyz"]
    o.L = [p.real("L" + c) for c in "xyz"]
    for x, L in zip(o.w, o.L):
        p.require(z3.And(x >= 1, L > 0))
    b = ex.new("Box", *o.L, rv(0), rv(0), rv(0), z3.BoolVal(dim == 2))
    o.per = [p.bool("per" + c) for c in "xyz"]
    ex.method(b, "setPeriodic", *o.per)
    o.box = ex.read(b)
    o.g = [fdiv(L, z3.ToReal(x)) for L, x in zip(o.L, o.w)]
    o.width = Struct("vec3<unsigned int>", dict(zip("xyz", o.w)))

    def wrap(e, args, this):
        v = e.rd(args[0])
        out = []
        for q, c in enumerate("xyz"):
            if q >= dim:
                e.oblige("2D: no displacement along z", v.f[c] == 0, "post")
                out.append(rv(0))
                continue
            d = canon(v.f[c])
            n = next((a.arg(0) for a in apps_of(d, lambda x: x.decl().name() == o.pos[q].name())), None)
            i = index_in(o, q, n, d) if n is not None else None
            if i is None:
                raise Unsupported("displacement from a cell centre not recognised")
            out.append(o.dw[q](n, i))
        return vec(*out)
    ex.contracts["Box::wrap/1"] = wrap
    # dw[q](n, i): wrapped displacement along axis q of point n from the centre of the cells with index i
    o.dw = [z3.Function("dw" + c, I, I, R) for c in "xyz"]
    o.pos = [z3.Function("pos" + c, I, R) for c in "xyz"]
    o.bin = [z3.Function("bin" + c, I, I) for c in "xyz"]
    o.frac = [z3.Function("frac" + c, I, R) for c in "xyz"]
    o.cut = [z3.Int("cut" + c) for c in "xyz"]
    i = z3.FreshConst(I, "i")
    for q in range(dim):
        g, w = o.g[q], o.w[q]
        ex.fact(z3.And(g > 0, g * z3.ToReal(w) == o.L[q]))
        b_, f = o.bin[q](i), o.frac[q](i)
        ex.fact(z3.ForAll([i], z3.And(b_ >= 0, b_ < w), patterns=[b_]))
        ex.fact(z3.ForAll([i], z3.And(b_ >= 0, b_ < w, f >= 0, f < 1, o.pos[q](i) + o.L[q] / 2 == g * (z3.ToReal(b_) + f)), patterns=[o.pos[q](i)]))
        # the cells in reach: what int(min(r_max / g + 1/2, w)) is
        c = z3.ToReal(o.cut[q])
        m = fdiv(o.r, g) + z3.Q(1, 2)
        m = z3.If(z3.ToReal(w) < m, z3.ToReal(w), m)
        ex.fact(o.cut[q] >= 0)
        ex.fact(z3.And(c <= m, m < c + 1))
    o.nq = neighbor_query(p, box=o.box)
    pts = ex.alloc(Arr(o.nq.np, lambda n: vec(*[o.pos[q](n) if q < dim else rv(0) for q in range(3)]), "vec3<float>"), "points")
    ex.write(Ptr(o.nq.ptr.loc, ("m_points",)), Ptr(pts.loc, (iv(0),)))

    def toint(e, v):
        for q in range(dim):
            for a in apps_of(v, lambda x: x.decl().name() == o.pos[q].name()):
                return o.bin[q](a.arg(0))
        if contains(v, [o.r]):
            for q in range(dim):
                if contains(v, [o.L[q]]):
                    return o.cut[q]
        return None
    ex.dynamic["toint"] = toint

    def mod(e, x, y):
        if any(y.eq(w) for w in o.w):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                x = x.arg(1)                # (not negative: part of what is proved)
            i = simp(x - y)
            return z3.If(i < 0, x, z3.If(i < y, i, simp(i - y))), (0, 1, 2)
        return None
    ex.dynamic["mod"] = mod
    if dim == 2:
        o.L[2], o.w[2] = rv(0), iv(1)
    return o


def visits(p, o):
    """where the loops over the neighbourhood of point n meet the cell (ca, cb, cc)"""
    ex = p.ex
    o.cell = [p.int("c" + c) for c in "xyz"]
    o.ix = [z3.Function("at" + c, I, I) for c in "xyz"]
    n = z3.FreshConst(I, "n")
    o.low, o.high = [], []
    for q in range(3):
        c, w, per = o.cell[q], o.w[q], o.per[q]
        p.require(z3.And(c >= 0, c < w))
        cut = o.cut[q] if q < o.dim else iv(0)
        low = z3.If(per, z3.If(cut > w / 2, w / 2, cut), cut)
        hi = w - 1 - low
        o.low.append(low)
        o.high.append(z3.If(per, z3.If(hi < cut, hi, cut), cut))
        if q >= o.dim:
            continue
        x = o.ix[q](n)
        s = o.bin[q](n) - low
        ex.fact(z3.ForAll([n], x == z3.If(per, z3.If(c - w >= s, c - w, z3.If(c >= s, c, c + w)), c), patterns=[x]))


def start(o, q, n):
    return (o.bin[q](n) if q < o.dim else iv(0)) - o.low[q]


def ixof(o, q, n):
    return o.ix[q](n) if q < o.dim else iv(0)


def met(o, q, n, t=None):
    """the cell is met along axis q (in the first t steps)"""
    x, s = ixof(o, q, n), start(o, q, n)
    return z3.And(x >= s, x < s + t) if t is not None else z3.And(x >= s, x <= s + o.low[q] + o.high[q])


def disp(o, q, n, i):
    """displacement of point n from the centre of the cell with index i"""
    if q >= o.dim:
        return rv(0)
    return o.g[q] * z3.ToReal(i) + o.g[q] / 2 - o.pos[q](n) - o.L[q] / 2


def index_in(o, q, n, d):
    """the index i for which d is the displacement of point n from the centre of the cells with index i"""
    ts, todo = [], [d]
    while todo:
        a = todo.pop()
        if z3.is_to_real(a):
            if not a.arg(0).eq(o.w[q]) and not any(a.arg(0).eq(t) for t in ts):
                ts.append(a.arg(0))
        else:
            todo += a.children()
    for sg in itertools.product((1, -1), repeat=len(ts)):
        i = simp(sum((s * t for s, t in zip(sg, ts)), iv(0)))
        if canon(disp(o, q, n, i)).eq(d):
            return i
    return None


def near(o, n, idx, ds=None):
    ds = ds or [o.dw[q](n, idx[q]) if q < o.dim else rv(0) for q in range(3)]
    return sum((d * d for d in ds[1:]), ds[0] * ds[0])


def stored(o, q, i):
    """index under which the cell visited at i is stored"""
    w = o.w[q]
    return z3.If(i < 0, i + w, z3.If(i < w, i, i - w))


HIT = z3.Function("hit_at", I, I, I, I, B)         # whether visiting point n at index (i, j, k) marks the cell
VAL = z3.Function("value_at", I, I, I, I, R)       # what visiting point n at index (i, j, k) adds to the cell


def collapse(p, o, value, read, hit=False):
    """what each of the three loops has added to the cell"""
    memo = {}

    def inv(v):
        axis = {1: 2, 2: 1, 3: 0}.get(v.nest)
        if axis is None:
            return None
        n = v["idx"]
        now = read(v)
        if z3.is_const(v.k):
            memo[v.nest] = simp(unfold(z3.substitute(now, (v.k, iv(0)))))
        here = []
        idx = []
        for q in range(3):
            if q < axis:
                here.append(met(o, q, n))
            elif q == axis:
                here.append(met(o, q, n, v.k))
            else:
                here.append(stored(o, q, v["yz"[q - 1] == "y" and "j" or "k"]) == o.cell[q])
            idx.append(ixof(o, q, n) if q <= axis else v["j" if q == 1 else "k"])
        if axis == 0:
            i = v["i"]
            p.ex.fact((HIT if hit else VAL)(n, i, idx[1], idx[2]) == value(n, [i, idx[1], idx[2]]))
        if hit:
            return now == z3.If(z3.And(*here, HIT(n, *idx)), 1, memo[v.nest])
        return now == memo[v.nest] + z3.If(z3.And(*here), VAL(n, *idx), 0)
    return inv


def nearest(o, q, n):
    """displacement along an axis of the nearest image of point n from the centre of the cell"""
    return WR(o.L[q], o.per[q], canon(disp(o, q, n, o.cell[q]))) if q < o.dim else rv(0)


def coverage(p, o, n):
    """cells that are not met are out of reach; the displacement does not depend on the image met"""
    ex = p.ex
    x_, r_ = z3.Reals("law!x law!r")
    square = p.rule("squares", [x_, r_], [r_ > 0, z3.Or(x_ >= r_, x_ <= -r_)], x_ * x_ >= r_ * r_)
    for q in range(o.dim):
        L, per, c, g = o.L[q], o.per[q], o.cell[q], o.g[q]
        x = o.ix[q](n)
        D, E = canon(disp(o, q, n, c)), canon(disp(o, q, n, x))
        ex.fact(o.pos[q](n) == o.pos[q](n))
        ex.fact(o.dw[q](n, x) == WR(L, per, E))            # (definition of dw)
        for m in (-1, 0, 1):
            # (nearest image: periodic)
            ex.fact(z3.Implies(z3.And(per, E == D + m * L), WR(L, per, E) == WR(L, per, D)))
        k = p.int(f"image{q}")
        w = WR(L, per, D)
        ex.fact(z3.Implies(per, w == D - L * z3.ToReal(k)))
        ex.fact(z3.Implies(Not(per), w == D))
        b, f = o.bin[q](n), o.frac[q](n)
        p.lemma(f"image met, axis {q}", z3.Implies(per, Or(*[E == D + m * L for m in (-1, 0, 1)])))
        p.lemma(f"same displacement, axis {q}", WR(L, per, E) == w)
        # cut + 1/2 cells are more than r_max
        p.lemma(f"cut, axis {q}", z3.Implies(o.cut[q] < o.w[q], g * (z3.ToReal(o.cut[q]) + z3.Q(1, 2)) > o.r))
        p.lemma(f"not met: beyond the cut, axis {q}", z3.Implies(Not(met(o, q, n)), z3.And(o.cut[q] < o.w[q], Or(x > b + o.cut[q], z3.And(Not(per), x < b - o.cut[q])), z3.Implies(per, x - o.w[q] < b - o.cut[q]))))
        p.lemma(f"displacement, axis {q}", E == g * (z3.ToReal(x) + z3.Q(1, 2) - z3.ToReal(b) - f))
        p.lemma(f"out of reach, axis {q}", z3.Implies(Not(met(o, q, n)), z3.Or(w >= o.r, w <= -o.r)))
        square(w, o.r)


@proof(GD, timeout=300)
def gaussian_3d(p):
    gaussian(p, 3)


def same_value(p, o, n, there, value):
    """what is found at the image met is what the nearest image gives; points not met are out of reach"""
    dim = o.dim
    ws = [nearest(o, q, n) for q in range(dim)]
    spec = value(ws + [rv(0)] * (3 - dim))
    moved = p.replace("same displacement", there, [(o.dw[q](n, ixof(o, q, n)), ws[q]) for q in range(dim)])
    p.lemma("value at the image met", moved == spec)
    cs = [z3.Bool(f"law!m{q}") for q in range(dim)]
    ss = [z3.Real(f"law!s{q}") for q in range(dim)]
    rr = z3.Real("law!rr")
    beyond = p.rule("a point out of reach along one axis is out of reach", cs + ss + [rr], [z3.Implies(Not(c), s_ >= rr) for c, s_ in zip(cs, ss)] + [s_ >= 0 for s_ in ss],
                    z3.Or(z3.And(*cs), Not(sum(ss[1:], ss[0]) < rr)))
    for w in ws:
        p.lemma("square", w * w >= 0)
    beyond(*[met(o, q, n) for q in range(dim)], *[w * w for w in ws], o.r * o.r)
    return spec


def cell_of(o, a):
    return a.f["nest"].get(o.cell[0]).get(o.cell[1]).get(o.cell[2])


def gaussian(p, dim):
    logic.SORTED = True
    ex = p.ex
    o = grid(p, dim)
    visits(p, o)
    s = p.real("sigma")
    p.require(s > 0)
    g = ex.new("GaussianDensity", o.width, o.r, s)
    p.not_thrown("constructor accepts it")
    val, va = arr_ptr(ex, "values", o.nq.np, "float")
    base = fdiv(rv(1), sqrt(2 * PI * s * s))
    norm = base * base * (base if dim == 3 else 1)

    def value(n, idx, ds=None):
        r2 = near(o, n, idx, ds)
        return z3.If(r2 < o.r * o.r, elem(ex, Ptr(va.loc, (n,))) * norm * EXP(canon(fdiv(-r2, 2 * s * s))), 0)

    ex.invariants["compute"] = [collapse(p, o, value, lambda v: cell_of(o, ex.read(Ptr(v.ptr("local_bin_counts").loc, v.ptr("local_bin_counts").path + ("arrays", "items", iv(0))))))]
    got = []

    def reduce_into(e, args, this):
        got.append(cell_of(o, e.read(Ptr(this.loc, this.path + ("arrays", "items", iv(0))))))
        return None
    ex.contracts["ThreadStorage::local"] = lambda e, a, this: Ptr(this.loc, this.path + ("arrays", "items", iv(0)))
    ex.contracts["ThreadStorage::reduceInto"] = reduce_into
    ex.method(g, "compute", o.nq.ptr, val)
    p.not_thrown()
    n = p.int("n")
    coverage(p, o, n)
    at = [ixof(o, q, n) for q in range(3)]
    there = value(n, at)
    ex.fact(VAL(n, *at) == there)                              # (definition)
    one = z3.If(z3.And(*[met(o, q, n) for q in range(3)]), VAL(n, *at), 0)
    spec = same_value(p, o, n, there, lambda ds: value(n, None, ds))
    p.ensure("a point gives the cell value times Gaussian of its nearest image", z3.Implies(z3.And(n >= 0, n < o.nq.np), one == spec))
    i = z3.FreshConst(I, "i")
    total = lambda t: SUM(o.nq.np, z3.substitute(t, (n, i)), i)
    ex.fact(total(one) == total(spec))                         # (n stands for any point: equal summands)
    p.ensure_without("density of a cell: sum over the points", got[0] == total(one), GEOMETRY)
    p.reach()


@proof(GD, sizes=["sys_np"], timeout=100)
def gaussian_2d(p):
    gaussian(p, 2)


GEOMETRY = ["wrap1", "dwx", "dwy", "dwz", "posx", "posy", "posz", "inv", "exp", "sqrt"]


def voxels(p, dim):
    logic.SORTED = True
    ex = p.ex
    o = grid(p, dim)
    visits(p, o)
    g = ex.new("SphereVoxelization", o.width, o.r)
    p.not_thrown("constructor accepts it")

    def hit(n, idx, ds=None):
        return near(o, n, idx, ds) < o.r * o.r

    def one(n):
        return z3.And(*[met(o, q, n) for q in range(3)], HIT(n, *[ixof(o, q, n) for q in range(3)]))

    def marks(upto, f):
        n = z3.FreshConst(I, "n")
        return SUM(upto, z3.If(f(n), iv(1), iv(0)), n)
    voxel = lambda m: cell_of(o, ex.read(ex.read(Ptr(m.loc, m.path + ("m_voxels_array",)))))
    inner = collapse(p, o, hit, lambda v: voxel(g), hit=True)

    def inv(v):
        if v.nest == 0:
            v.without = GEOMETRY
            m = marks(v.k, one)
            if not z3.is_const(v.k):
                k = simp(v.k - 1)
                ex.fact(z3.Implies(k >= 0, m == marks(k, one) + z3.If(one(k), 1, 0)))      # (definition of the sum)
            return z3.And(m >= 0, voxel(g) == z3.If(m > 0, 1, 0))
        return inner(v)
    ex.invariants["compute"] = [inv]
    sp = ex.alloc(o.nq.ptr)
    ex.method(g, "compute", sp)
    p.not_thrown()
    n = p.int("n")
    coverage(p, o, n)
    at = [ixof(o, q, n) for q in range(3)]
    there = hit(n, at)
    ex.fact(HIT(n, *at) == there)                              # (definition)
    spec = same_value(p, o, n, there, lambda ds: hit(n, None, ds))
    p.ensure("the visits mark the cell exactly when the nearest image is within r_max", z3.Implies(z3.And(n >= 0, n < o.nq.np), one(n) == spec))
    ex.fact(marks(o.nq.np, one) == marks(o.nq.np, lambda i: z3.substitute(spec, (n, i))))     # (n stands for any point: equal summands)
    p.ensure_without("a cell is marked exactly when some point is within r_max", voxel(g) == z3.If(marks(o.nq.np, one) > 0, 1, 0), GEOMETRY)
    p.reach()


@proof(SV, timeout=300)
def voxels_3d(p):
    voxels(p, 3)


@proof(SV, sizes=["sys_np"], timeout=100)
def voxels_2d(p):
    voxels(p, 2)
