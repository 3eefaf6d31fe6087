"""P01: coordinate transforms of Box."""
from .lib import *

TU = BOX_TU
ASSUMPTIONS = ["box edge lengths are positive (Lz is 0 in 2D, as the constructor makes it)"]


def fwd(p, b, v):
    return p.ex.method(b.ptr, "makeFractional", p.ex.alloc(v), nparams=1)


def absolute(p, b, v):
    return p.ex.method(b.ptr, "makeAbsolute", p.ex.alloc(v), nparams=1)


def wrap(p, b, v):
    return p.ex.method(b.ptr, "wrap", p.ex.alloc(v), nparams=1)


@proof(TU)
def modulus_positive(p):
    """modulusPositive(x, 1) is x - floor(x), so in [0,1) and congruent to x"""
    x = p.real("x")
    r = p.ex.func("modulusPositive", x, rv(1), typ="float")
    p.ensure("equals x - floor(x)", r == floorfrac(x))
    p.ensure("in [0,1)", z3.And(r >= 0, r < 1))
    p.reach()


@proof(TU)
def modulus_positive_general(p):
    """modulusPositive(x, y) is x - y*floor(x/y) for every y > 0, so in [0,y)"""
    x, y = p.real("x"), p.real("y")
    p.require(y > 0)
    r = p.ex.func("modulusPositive", x, y, typ="float")
    n = z3.ToInt(fdiv(x, y))
    p.lemma("floor", z3.And(z3.ToReal(n) * y <= x, x < (z3.ToReal(n) + 1) * y))
    p.ensure("equals x - y floor(x/y)", r == x - y * z3.ToReal(n))
    p.ensure("in [0,y)", z3.And(r >= 0, r < y))
    p.reach()


def _geom(p, dim):
    b = p.box(dim)
    Lx, Ly, Lz = b.L
    xy, xz, yz = b.tilt
    return b, Lx, Ly, Lz, xy, xz, yz


def _transforms(p, dim):
    ex = p.ex
    b, Lx, Ly, Lz, xy, xz, yz = _geom(p, dim)
    f = ex.symbolic("f", "vec3<float>")
    a = absolute(p, b, f)
    fx, fy, fz = comps(f)
    h = z3.Q(1, 2)
    if dim == 3:
        z = (fz - h) * Lz
        y = (fy - h) * Ly + yz * z
        x = (fx - h) * Lx + xy * ((fy - h) * Ly) + xz * z
    else:
        z = rv(0)
        y = (fy - h) * Ly
        x = (fx - h) * Lx + xy * y
    for n, e in zip("xyz", (x, y, z)):
        p.ensure(f"makeAbsolute is origin + fractions of the lattice vectors ({n})", a.f[n] == e)
    back = fwd(p, b, a)
    for n in "xyz":
        if dim == 2 and n == "z":
            p.ensure("fractional z is 0 in 2D", back.f[n] == 0)
        else:
            p.ensure(f"makeFractional(makeAbsolute(f)) == f ({n})", back.f[n] == f.f[n])
    v = ex.symbolic("v", "vec3<float>")
    if dim == 2:
        v = v.set("z", rv(0))
    again = absolute(p, b, fwd(p, b, v))
    for n in "xyz":
        p.ensure(f"makeAbsolute(makeFractional(v)) == v ({n})", again.f[n] == v.f[n])
    p.reach()


@proof(TU)
def transforms_3d(p):
    _transforms(p, 3)


@proof(TU)
def transforms_2d(p):
    _transforms(p, 2)


def _wrap(p, dim):
    ex = p.ex
    use_modpos(ex)
    b, Lx, Ly, Lz, xy, xz, yz = _geom(p, dim)
    v = ex.symbolic("v", "vec3<float>")
    if dim == 2:
        v = v.set("z", rv(0))
    f = fwd(p, b, v)
    w = wrap(p, b, v)
    any_per = Or(*b.per)
    # w differs from v by an integer combination of lattice vectors, and its
    # fractional coordinates along periodic directions are in [0,1)
    k = [z3.If(z3.And(any_per, b.per[i]), z3.ToInt(f.f[n]), iv(0)) for i, n in enumerate("xyz")]
    if dim == 2:
        k[2] = iv(0)
    lat = [(Lx, rv(0), rv(0)), (xy * Ly, Ly, rv(0)), (xz * Lz, yz * Lz, Lz)]
    for i, n in enumerate("xyz"):
        e = v.f[n]
        for j in range(3 if dim == 3 else 2):
            e = e - z3.ToReal(k[j]) * lat[j][i]
        p.ensure(f"wrap moves by a lattice vector ({n})", w.f[n] == e)
    fw = fwd(p, b, w)
    for i, n in enumerate("xyz"):
        if dim == 2 and n == "z":
            continue
        p.ensure(f"wrapped point lies in the primary cell along periodic {n}",
                 z3.Implies(b.per[i], z3.And(fw.f[n] >= 0, fw.f[n] < 1)))
        p.ensure(f"non-periodic {n} untouched", z3.Implies(Not(b.per[i]), fw.f[n] == f.f[n]))
    p.reach()


@proof(TU)
def wrap_3d(p):
    _wrap(p, 3)


@proof(TU)
def wrap_2d(p):
    _wrap(p, 2)


@proof(TU)
def image_unwrap(p):
    """getImage is the lattice index of the cell of v: unwrap(wrap(v), image(v)) == v"""
    ex = p.ex
    use_modpos(ex)
    for dim in (2, 3):
        b = p.box(dim, (True, True, True), nm=f"d{dim}")
        v = ex.symbolic(f"v{dim}", "vec3<float>")
        if dim == 2:
            v = v.set("z", rv(0))
        f = fwd(p, b, v)
        img = ex.alloc(vec(iv(0), iv(0), iv(0), "vec3<int>"))
        ex.method(b.ptr, "getImage", ex.alloc(v), img)
        im = ex.read(img)
        for n in "xyz"[:dim]:
            g = f.f[n]
            # (the cell boundary itself is excluded: there the two roundings may differ)
            p.ensure(f"image {n} is the cell index ({dim}D)",
                     z3.Implies(g != z3.ToReal(z3.ToInt(g)), im.f[n] == z3.ToInt(g)))
        if dim == 2:
            p.ensure("image z is 0 in 2D", im.f["z"] == 0)
    p.reach()


def _array(p, name, pre=(), out="vec3<float>"):
    """the array overload writes f(v[i]) to out[i] for every i < N and nothing else"""
    ex = p.ex
    b = p.box("sym")
    N = p.size("N")
    use_modpos(ex)
    use_wrap(ex)
    src, sa = arr_ptr(ex, "vecs", N)
    dst, da = arr_ptr(ex, "out", N + 5, out)
    ex.method(b.ptr, name, src, N, dst, nparams=3)
    i = p.int("i")
    got = elem(ex, da, i)
    v = elem(ex, sa, i)
    inr = z3.And(i >= 0, i < N)
    one = ex.method(b.ptr, name, ex.alloc(v), nparams=1)
    old = ex.sym_array("out", N, out).get(i)
    for n in "xyz":
        p.ensure(f"element i is the scalar result ({n})", z3.Implies(inr, got.f[n] == one.f[n]))
        p.ensure(f"frame: nothing else written ({n})", z3.Implies(z3.And(i >= N, i < N + 5), got.f[n] == old.f[n]))
        p.ensure(f"frame: input unchanged ({n})", v.f[n] == ex.sym_array("vecs", N, "vec3<float>").get(i).f[n])
    p.reach()


@proof(TU, sizes=["N"])
def array_makeAbsolute(p):
    _array(p, "makeAbsolute")


@proof(TU, sizes=["N"])
def array_makeFractional(p):
    _array(p, "makeFractional")


@proof(TU, sizes=["N"])
def array_wrap(p):
    _array(p, "wrap")


@proof(TU, sizes=["N"])
def array_getImages(p):
    ex = p.ex
    b = p.box("sym")
    N = p.size("N")
    src, sa = arr_ptr(ex, "vecs", N)
    dst, da = arr_ptr(ex, "out", N + 5, "vec3<int>")
    ex.method(b.ptr, "getImages", src, N, dst, nparams=3)
    i = p.int("i")
    got = elem(ex, da, i)
    img = ex.alloc(vec(iv(0), iv(0), iv(0), "vec3<int>"))
    ex.method(b.ptr, "getImage", ex.alloc(elem(ex, sa, i)), img)
    one = ex.read(img)
    old = ex.sym_array("out", N, "vec3<int>").get(i)
    for n in "xyz":
        p.ensure(f"element i is the scalar result ({n})", z3.Implies(z3.And(i >= 0, i < N), got.f[n] == one.f[n]))
        p.ensure(f"frame ({n})", z3.Implies(z3.And(i >= N, i < N + 5), got.f[n] == old.f[n]))
    p.reach()


@proof(TU, sizes=["N"])
def unwrap_array(p):
    ex = p.ex
    for dim in (2, 3):
        b = p.box(dim, nm=f"d{dim}")
        N = p.size("N")
        src, sa = arr_ptr(ex, f"vecs{dim}", N)
        im, ia = arr_ptr(ex, f"img{dim}", N, "vec3<int>")
        dst, da = arr_ptr(ex, f"out{dim}", N + 5)
        ex.method(b.ptr, "unwrap", src, im, N, dst)
        i = p.int("i")
        got, v, m = elem(ex, da, i), elem(ex, sa, i), elem(ex, ia, i)
        Lx, Ly, Lz = b.L
        xy, xz, yz = b.tilt
        mx, my, mz = [z3.ToReal(m.f[c]) for c in "xyz"]
        if dim == 2:
            mz = rv(0)
        e = {"x": v.f["x"] + mx * Lx + my * xy * Ly + mz * xz * Lz, "y": v.f["y"] + my * Ly + mz * yz * Lz,
             "z": v.f["z"] + mz * Lz}
        old = ex.sym_array(f"out{dim}", N, "vec3<float>").get(i)
        for n in "xyz":
            p.ensure(f"unwrap adds image times lattice vectors ({n}, {dim}D)", z3.Implies(z3.And(i >= 0, i < N), got.f[n] == e[n]))
            p.ensure(f"frame ({n}, {dim}D)", z3.Implies(z3.And(i >= N, i < N + 5), got.f[n] == old.f[n]))
        p.not_thrown()
    p.reach()
