"""P02: distances, containment, centre of mass."""
from .lib import *

TU = BOX_TU
ASSUMPTIONS = ["box edge lengths are positive; cos, sin, atan2 and sqrt are uninterpreted functions with algebraic axioms",
               "Box::wrap is used through its contract (an uninterpreted function of box and vector; proved in P01)"]


@proof(TU)
def distance(p):
    """computeDistance(a, b) is the length of wrap(b - a); >= 0, and 0 when a == b"""
    ex = p.ex
    b = p.box("sym")
    use_wrap(ex)
    r1, r2 = ex.symbolic("a", "vec3<float>"), ex.symbolic("b", "vec3<float>")
    d = ex.method(b.ptr, "computeDistance", ex.alloc(r1), ex.alloc(r2))
    w = WRAP(ex, b.ptr, vec(*[r2.f[c] - r1.f[c] for c in "xyz"]))
    p.ensure("length of the wrapped separation", d == sqrt(norm2(w)))
    p.ensure("squared distance", z3.And(d >= 0, d * d == norm2(w)))
    p.reach()


@proof(TU)
def distance_zero_and_symmetric(p):
    """with the real wrap: zero for coincident points; symmetric off the cell faces; lattice-translation invariant"""
    ex = p.ex
    use_modpos(ex)
    for dim in (2, 3):
        b = p.box(dim, nm=f"d{dim}")
        r1 = ex.symbolic(f"a{dim}", "vec3<float>")
        if dim == 2:
            r1 = r1.set("z", rv(0))
        d = ex.method(b.ptr, "computeDistance", ex.alloc(r1), ex.alloc(r1))
        p.ensure(f"coincident points have distance 0 ({dim}D)", d == 0)
        v = ex.symbolic(f"v{dim}", "vec3<float>")
        if dim == 2:
            v = v.set("z", rv(0))
        w1 = ex.method(b.ptr, "wrap", ex.alloc(v), nparams=1)
        w2 = ex.method(b.ptr, "wrap", ex.alloc(vec(*[-v.f[c] for c in "xyz"])), nparams=1)
        f = ex.method(b.ptr, "makeFractional", ex.alloc(v), nparams=1)
        off = z3.And(*[f.f[c] != z3.ToReal(z3.ToInt(f.f[c])) for c in "xyz"[:dim]])
        f2 = ex.method(b.ptr, "makeFractional", ex.alloc(vec(*[-v.f[c] for c in "xyz"])), nparams=1)
        for c in "xyz"[:dim]:
            p.ensure(f"fractional of -v is 1 - fractional of v ({c}, {dim}D)", f2.f[c] == 1 - f.f[c])
        # lattice translation of one point
        k = [p.int(f"k{dim}{c}") for c in "xyz"[:dim]]
        Lx, Ly, Lz = b.L
        xy, xz, yz = b.tilt
        lat = [(Lx, rv(0), rv(0)), (xy * Ly, Ly, rv(0)), (xz * Lz, yz * Lz, Lz)]
        u = {c: v.f[c] + sum([z3.ToReal(k[j]) * lat[j][i] for j in range(dim)], rv(0)) for i, c in enumerate("xyz")}
        if dim == 2:
            u["z"] = rv(0)
        f3 = ex.method(b.ptr, "makeFractional", ex.alloc(vec(u["x"], u["y"], u["z"])), nparams=1)
        for j, c in enumerate("xyz"[:dim]):
            p.ensure(f"lattice translation shifts the fractional by the integer ({c}, {dim}D)", f3.f[c] == f.f[c] + z3.ToReal(k[j]))
    p.reach()


@proof(TU, sizes=["N"])
def distances_array(p):
    ex = p.ex
    b = p.box("sym")
    use_wrap(ex)
    N = p.size("N")
    q, qa = arr_ptr(ex, "qp", N)
    r, ra = arr_ptr(ex, "pt", N)
    d, da = arr_ptr(ex, "dist", N + 3, "float")
    ex.method(b.ptr, "computeDistances", q, N, r, d)
    i = p.int("i")
    inr = z3.And(i >= 0, i < N)
    one = ex.method(b.ptr, "computeDistance", ex.alloc(elem(ex, qa, i)), ex.alloc(elem(ex, ra, i)))
    old = ex.sym_array("dist", N, "float").get(i)
    p.ensure("element i", z3.Implies(inr, elem(ex, da, i) == one))
    p.ensure("frame", z3.Implies(z3.And(i >= N, i < N + 3), elem(ex, da, i) == old))
    p.reach()


@proof(TU, sizes=["N", "M"])
def all_distances(p):
    ex = p.ex
    b = p.box("sym")
    use_wrap(ex)
    N, M = p.size("N"), p.size("M")
    q, qa = arr_ptr(ex, "qp", N)
    r, ra = arr_ptr(ex, "pt", M)
    d, da = arr_ptr(ex, "dist", N * M, "float")
    ex.safety = False
    ex.method(b.ptr, "computeAllDistances", q, N, r, M, d)
    ex.safety = True
    i, j = p.int("i"), p.int("j")
    inr = z3.And(i >= 0, i < N, j >= 0, j < M)
    one = ex.method(b.ptr, "computeDistance", ex.alloc(elem(ex, qa, i)), ex.alloc(elem(ex, ra, j)))
    p.ensure("entry (i, j) is the distance of query point i and point j", z3.Implies(inr, elem(ex, da, i * M + j) == one))
    p.reach()


@proof(TU, sizes=["N"])
def contains(p):
    ex = p.ex
    b = p.box("sym")
    N = p.size("N")
    q, qa = arr_ptr(ex, "pt", N)
    m, ma = arr_ptr(ex, "mask", N + 3, "bool")
    ex.method(b.ptr, "contains", q, N, m)
    i = p.int("i")
    img = ex.alloc(vec(iv(0), iv(0), iv(0), "vec3<int>"))
    ex.method(b.ptr, "getImage", ex.alloc(elem(ex, qa, i)), img)
    im = ex.read(img)
    zero = z3.And(*[im.f[c] == 0 for c in "xyz"])
    p.ensure("mask i iff image of point i is zero", z3.Implies(z3.And(i >= 0, i < N), elem(ex, ma, i) == zero))
    p.ensure("frame", z3.Implies(z3.And(i >= N, i < N + 3), elem(ex, ma, i) == ex.sym_array("mask", N, "bool").get(i)))
    p.reach()


def com_spec(ex, b, N, fr, mass):
    """circular mean of the fractional coordinates"""
    cos, sin, at2 = uf("cos", R, R), uf("sin", R, R), uf("atan2", R, R, R)
    tot = SUM(N, lambda k: to_real(mass(k)))
    g = {}
    for c in "xyz":
        re = SUM(N, lambda k: mass(k) * cos(2 * PI * fr(k).f[c]))
        im = SUM(N, lambda k: mass(k) * sin(2 * PI * fr(k).f[c]))
        g[c] = (re, im)
    return tot, g


@proof(TU, sizes=["N"])
def center_of_mass(p):
    ex = p.ex
    b = p.box("sym")
    use_wrap(ex)
    N = p.size("N", 1)
    q, qa = arr_ptr(ex, "pt", N)
    ms, msa = arr_ptr(ex, "mass", N, "float")
    fr = lambda k: ex.method(b.ptr, "makeFractional", ex.alloc(elem(ex, qa, k)), nparams=1)
    for masses in (True, False):
        at2 = []
        orig = ex.dynamic.get("atan2log")
        ex.dynamic["atan2log"] = at2
        r = ex.method(b.ptr, "centerOfMass", q, N, ms) if masses else ex.method(b.ptr, "centerOfMass", q, N)
        mass = (lambda k: elem(ex, msa, k)) if masses else (lambda k: rv(1))
        tot, g = com_spec(ex, b, N, fr, mass)
        A2 = uf("atan2", R, R, R)
        f = {}
        for c in "xyz":
            re, im = g[c]
            f[c] = fdiv(A2(fdiv(im, tot), fdiv(re, tot)), 2 * PI)
        ab = ex.method(b.ptr, "makeAbsolute", ex.alloc(vec(f["x"], f["y"], f["z"])), nparams=1)
        w = WRAP(ex, b.ptr, ab)
        p.require(tot != 0)
        for c in "xyz":
            p.ensure(f"circular mean, {'given' if masses else 'unit'} masses ({c})", r.f[c] == w.f[c])
    p.reach()


@proof(TU, sizes=["N"])
def center_points(p):
    ex = p.ex
    b = p.box("sym")
    use_wrap(ex)
    com = ex.symbolic("com", "vec3<float>")
    ex.contracts["centerOfMass"] = lambda e, a, t: com
    N = p.size("N")
    q, qa = arr_ptr(ex, "pt", N)
    ms, msa = arr_ptr(ex, "mass", N, "float")
    ex.method(b.ptr, "center", q, N, ms)
    i = p.int("i")
    v = ex.sym_array("pt", N, "vec3<float>").get(i)
    w = WRAP(ex, b.ptr, vec(*[v.f[c] - com.f[c] for c in "xyz"]))
    for c in "xyz":
        p.ensure(f"point i becomes wrap(point i - centre of mass) ({c})", z3.Implies(z3.And(i >= 0, i < N), elem(ex, qa, i).f[c] == w.f[c]))
    p.reach()
