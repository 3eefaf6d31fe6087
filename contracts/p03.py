"""P03: geometry of the box and its setters."""
from .lib import *

TU = BOX_TU
ASSUMPTIONS = ["box edge lengths are positive", "the Python constructors (from_box, from_matrix, ...) are Python: bounded runtime contracts only"]
GET = ["getLx", "getLy", "getLz", "getTiltFactorXY", "getTiltFactorXZ", "getTiltFactorYZ", "is2D", "getPeriodicX", "getPeriodicY", "getPeriodicZ"]


@proof(TU)
def geometry(p):
    ex = p.ex
    for dim in (2, 3):
        b = p.box(dim, nm=f"d{dim}")
        Lx, Ly, Lz = b.L
        xy, xz, yz = b.tilt
        p.ensure(f"volume is the determinant of the lattice ({dim}D)",
                 ex.method(b.ptr, "getVolume") == (Lx * Ly * Lz if dim == 3 else Lx * Ly))
        lat = [(Lx, rv(0), rv(0)), (Ly * xy, Ly, rv(0)), (Lz * xz, Lz * yz, Lz)]
        for i in range(dim):
            v = ex.method(b.ptr, "getLatticeVector", i)
            for c, e in zip("xyz", lat[i]):
                p.ensure(f"lattice vector {i} ({c}, {dim}D)", v.f[c] == e)
        p.not_thrown(f"lattice vectors exist ({dim}D)")
        li = ex.method(b.ptr, "getLinv")
        for i in range(dim):
            p.ensure(f"inverse length {i} ({dim}D)", li.get(iv(i)) * b.L[i] == 1)
        lv = ex.method(b.ptr, "getL")
        for i, c in enumerate("xyz"):
            p.ensure(f"length {c} ({dim}D)", lv.f[c] == (b.L[i] if i < dim else rv(0)))
        if dim == 2:
            p.ensure("Lz is 0 in 2D", lv.f["z"] == 0)
            p.ensure("inverse Lz is 0 in 2D", li.get(iv(2)) == 0)
        d = ex.method(b.ptr, "getNearestPlaneDistance")
        # |a2 x a3| * d1 = volume, squared (areas of the faces of the cell)
        if dim == 3:
            def crs(a, c):
                return (a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0])
            for i, c in enumerate("xyz"):
                n = crs(lat[(i + 1) % 3], lat[(i + 2) % 3])
                p.ensure(f"plane distance {c}: d^2 * |face|^2 == volume^2",
                         d.f[c] * d.f[c] * (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) == (Lx * Ly * Lz) * (Lx * Ly * Lz))
                p.ensure(f"plane distance {c} is nonnegative", d.f[c] >= 0)
    p.reach()


@proof(TU)
def setters(p):
    """a setter leaves the box as if constructed with the new value"""
    ex = p.ex
    for dim in (2, 3):
        b = p.box(dim, nm=f"d{dim}")
        nL = [p.real(f"n{c}{dim}") for c in ("Lx", "Ly", "Lz")]
        nt = [p.real(f"n{c}{dim}") for c in ("xy", "xz", "yz")]
        for L in nL:
            p.require(L > 0)
        ex.method(b.ptr, "setL", *nL)
        for s, v in zip(("setTiltFactorXY", "setTiltFactorXZ", "setTiltFactorYZ"), nt):
            ex.method(b.ptr, s, v)
        per = [p.bool(f"np{c}{dim}") for c in "xyz"]
        ex.method(b.ptr, "setPeriodic", True, True, True)
        for s, v in zip(("setPeriodicX", "setPeriodicY", "setPeriodicZ"), per):
            ex.method(b.ptr, s, v)
        fresh = ex.new("Box", *nL, *nt, z3.BoolVal(dim == 2))
        ex.method(fresh, "setPeriodic", *per)
        got, want = ex.read(b.ptr), ex.read(fresh)
        for f in ("m_L", "m_Linv", "m_hi", "m_lo", "m_periodic"):
            for c in "xyz":
                p.eq(f"{f}.{c} after setters ({dim}D)", got.f[f].f[c], want.f[f].f[c])
        for f in ("m_xy", "m_xz", "m_yz", "m_2d"):
            p.eq(f"{f} after setters ({dim}D)", got.f[f], want.f[f])
        eq = ex.method(b.ptr, "operator==", fresh)
        p.ensure(f"equals the fresh box ({dim}D)", eq)
    # 3D -> 2D
    b = p.box(3, (True, True, True))
    ex.method(b.ptr, "set2D", True)
    fresh = ex.new("Box", *b.L, *b.tilt, True)
    got, want = ex.read(b.ptr), ex.read(fresh)
    for f in ("m_L", "m_Linv", "m_hi", "m_lo"):
        for c in "xyz":
            p.eq(f"{f}.{c} after set2D", got.f[f].f[c], want.f[f].f[c])
    p.reach()


@proof(TU)
def equality(p):
    """operator== is equality of lengths, tilts and periodic flags"""
    ex = p.ex
    a, b = p.box("sym", nm="a"), p.box("sym", nm="b")
    eq = ex.method(a.ptr, "operator==", b.ptr)
    ne = ex.method(a.ptr, "operator!=", b.ptr)
    A_, B_ = ex.read(a.ptr), ex.read(b.ptr)
    same = z3.And(*[A_.f["m_L"].f[c] == B_.f["m_L"].f[c] for c in "xyz"],
                  *[A_.f["m_periodic"].f[c] == B_.f["m_periodic"].f[c] for c in "xyz"],
                  *[A_.f[t] == B_.f[t] for t in ("m_xy", "m_xz", "m_yz")])
    p.ensure("== iff all parameters agree", eq == same)
    p.ensure("!= is the negation", ne == z3.Not(eq))
    p.reach()


@proof(TU)
def getters(p):
    ex = p.ex
    b = p.box("sym")
    want = [b.L[0], b.L[1], z3.If(b.is2D, rv(0), b.L[2]), *b.tilt, b.is2D, *b.per]
    for g, w in zip(GET, want):
        p.eq(g, ex.method(b.ptr, g), w)
    ex.method(b.ptr, "enforce2D")
    p.ensure("enforce2D throws iff 3D", p.thrown() == z3.Not(b.is2D))
    p.reach()
