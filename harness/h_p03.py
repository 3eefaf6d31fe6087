import numpy as np
import freud
from rt import *

Box = freud.box.Box


def params(rng, two):
    L = f32(rng.uniform(0.3, 30, 3)).astype(float)
    t = f32(rng.uniform(-1.5, 1.5, 3)).astype(float) if rng.random() < 0.7 else np.zeros(3)
    return L, t


def same_params(t, b, ref, what, rtol=1e-5, atol=1e-5):
    a = np.array([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz], float)
    r = np.array([ref.Lx, ref.Ly, ref.Lz, ref.xy, ref.xz, ref.yz], float)
    t.close(a, r, what, rtol=rtol, atol=atol)
    t.check(bool(b.is2D) == bool(ref.is2D), what + " (dimension)")
    t.check(b.dimensions == (2 if ref.is2D else 3), what + " (dimensions)")


def behaves(t, b, ref, rng, what):
    """equal parameters and equal behaviour"""
    same_params(t, b, ref, what)
    t.close(b.volume, ref.volume, what + ": volume", rtol=1e-4)
    t.close(b.L_inv, ref.L_inv, what + ": L_inv", rtol=1e-4)
    f = f32(rng.uniform(0, 1, (4, 3)))
    t.close(b.make_absolute(f), ref.make_absolute(f), what + ": make_absolute", atol=1e-3)
    v = f32(unfrac(ref, rng.uniform(-1.4, 1.4, (6, 3))))
    t.close(b.make_fractional(v), ref.make_fractional(v), what + ": make_fractional", atol=1e-3)
    w1, w2 = b.wrap(v).astype(float), ref.wrap(v).astype(float)
    ok = np.all(np.abs(np.abs(frac(ref, w2)[:, :2 if ref.is2D else 3]) - 0.5) > 3e-3, axis=1)
    t.close(w1[ok], w2[ok], what + ": wrap", atol=3e-3)


@contract(120)
def geometry(t, rng):
    two = rng.random() < 0.5
    L, s = params(rng, two)
    if two and rng.random() < 0.7:
        s[1:] = 0
    b = Box(Lx=L[0], Ly=L[1], Lz=L[2] if not two or rng.random() < 0.3 else 0, xy=s[0], xz=s[1], yz=s[2], is2D=bool(two))
    t.inp(box=box_dict(b))
    t.check(bool(b.is2D) == bool(two) and (not two or b.Lz == 0), "a 2D box has Lz = 0", b)
    t.close([b.Lx, b.Ly], L[:2], "lengths", rtol=1e-6)
    t.close([b.xy, b.xz, b.yz], s, "tilt factors", rtol=1e-6)
    m = matrix(b)
    t.close(b.volume, L[0] * L[1] * (1 if two else L[2]), "volume", rtol=1e-4)
    if not two:
        t.close(b.volume, abs(np.linalg.det(m)), "volume is not the determinant of the lattice", rtol=1e-3)
    t.close(b.to_matrix(), m, "to_matrix", rtol=1e-5)
    for i in range(2 if two else 3):
        t.close(b.get_box_vector(i), m[:, i], f"lattice vector {i}", rtol=1e-5)
    t.close([b.v1, b.v2], [m[:, 0], m[:, 1]], "v1, v2", rtol=1e-5)
    t.close(b.L_inv[:2], 1 / L[:2], "inverse lengths", rtol=1e-5)
    t.close(b.L_inv[2], 0 if two else 1 / L[2], "inverse length z", rtol=1e-5)
    t.close(b.L, [b.Lx, b.Ly, b.Lz], "L")
    pd = np.array(b._cpp_obj.getNearestPlaneDistance() if hasattr(b._cpp_obj, "getNearestPlaneDistance") else [np.nan] * 3, float)
    if np.isfinite(pd).all():
        t.close(pd[:2 if two else 3], plane_distance(b), "nearest plane distance", rtol=1e-3)
    # the maximal r_max of a ball query shows the plane distances
    if two and (s[1] or s[2]):
        return
    n = plane_distance(b).min()
    p = np.zeros((2, 3), np.float32)
    nq = freud.locality.AABBQuery(b, p)
    nq.query(p, dict(mode="ball", r_max=float(n) * 0.497)).toNeighborList()
    t.raises(lambda: nq.query(p, dict(mode="ball", r_max=float(n) * 0.505)).toNeighborList(),
             "a ball query beyond half the nearest plane distance is accepted")


@contract(150)
def setters(t, rng):
    two = rng.random() < 0.4
    L, s = params(rng, two)
    b = Box(Lx=L[0], Ly=L[1], Lz=0 if two else L[2], xy=s[0], xz=s[1], yz=s[2], is2D=bool(two))
    P = dict(Lx=L[0], Ly=L[1], Lz=0 if two else L[2], xy=s[0], xz=s[1], yz=s[2], is2D=bool(two))
    ops = []
    for _ in range(int(rng.integers(1, 6))):
        o = rng.choice(["Lx", "Ly", "Lz", "xy", "xz", "yz", "L", "Ls", "dim", "dim3"])
        x = float(np.float32(rng.uniform(0.5, 20)))
        if o in ("Lx", "Ly"):
            setattr(b, o, x)
            P[o] = x
        elif o == "Lz":
            if P["is2D"]:
                continue
            b.Lz = x
            P["Lz"] = x
        elif o in ("xy", "xz", "yz"):
            x = float(np.float32(rng.uniform(-1, 1)))
            setattr(b, o, x)
            P[o] = x
        elif o == "L":
            v = f32(rng.uniform(0.5, 20, 3)).astype(float)
            if P["is2D"]:
                v[2] = 0
            b.L = list(v)
            P.update(Lx=v[0], Ly=v[1], Lz=v[2])
        elif o == "Ls":
            b.L = x
            P.update(Lx=x, Ly=x, Lz=0 if P["is2D"] else x)
        elif o == "dim":
            b.dimensions = 2
            P.update(is2D=True, Lz=0)
        elif o == "dim3" and P["is2D"]:
            z = float(np.float32(rng.uniform(0.5, 20)))
            b.dimensions = 3
            b.Lz = z
            P.update(is2D=False, Lz=z)
        ops.append(str(o))
        t.inp(start=(L, s, two), ops=ops, expected=P)
        behaves(t, b, Box(**P), rng, f"after setting {o} the box differs from a new one")


@contract(150)
def round_trips(t, rng):
    two = rng.random() < 0.45
    L, s = params(rng, two)
    s *= 0.6
    if two:
        s[1:] = 0
    b = Box(Lx=L[0], Ly=L[1], Lz=0 if two else L[2], xy=s[0], xz=s[1], yz=s[2], is2D=bool(two))
    t.inp(box=box_dict(b))
    same_params(t, Box.from_box(b), b, "from_box(box)")
    same_params(t, Box.from_box(b.to_dict()), b, "from_box(to_dict)")
    t.check(b.to_dict() == dict(Lx=b.Lx, Ly=b.Ly, Lz=b.Lz, xy=b.xy, xz=b.xz, yz=b.yz, dimensions=b.dimensions), "to_dict", b.to_dict())
    t.same(b.to_box_params(), (b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz), "to_box_params")
    same_params(t, Box.from_box(list(b.to_box_params())), b, "from_box(to_box_params)")
    same_params(t, Box.from_box(np.array(b.to_box_params())), b, "from_box(array of box params)")
    same_params(t, Box.from_matrix(b.to_matrix()), b, "from_matrix(to_matrix)", rtol=1e-3, atol=1e-3)
    same_params(t, Box.from_box(b.to_matrix()), b, "from_box(to_matrix)", rtol=1e-3, atol=1e-3)
    la = b.to_box_lengths_and_angles()
    m = matrix(b)
    if not two:
        ln = np.linalg.norm(m, axis=0)
        cs = [m[:, 1] @ m[:, 2] / ln[1] / ln[2], m[:, 0] @ m[:, 2] / ln[0] / ln[2], m[:, 0] @ m[:, 1] / ln[0] / ln[1]]
        t.close(la, list(ln) + list(np.arccos(cs)), "to_box_lengths_and_angles", rtol=1e-3, atol=1e-3)
    same_params(t, Box.from_box_lengths_and_angles(*la), b, "from_box_lengths_and_angles(to_...)", rtol=3e-3, atol=3e-3)
    if two:
        same_params(t, Box.from_box([L[0], L[1]]), Box(L[0], L[1], is2D=True), "from_box([Lx, Ly])")
        same_params(t, Box.square(L[0]), Box(L[0], L[0], is2D=True), "square")
    else:
        same_params(t, Box.from_box(L), Box(*L), "from_box([Lx, Ly, Lz])")
        same_params(t, Box.cube(L[0]), Box(L[0], L[0], L[0]), "cube")
        same_params(t, Box.from_box(b, dimensions=3), b, "from_box(box, dimensions=3)")
        t.raises(lambda: Box.from_box(b, dimensions=2), "conflicting dimensions accepted", ValueError)

    class Like:
        pass
    o = Like()
    o.Lx, o.Ly, o.Lz, o.xy, o.xz, o.yz, o.dimensions = b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, b.dimensions
    same_params(t, Box.from_box(o), b, "from_box(object with attributes)")
    # scaling
    k = float(np.float32(rng.uniform(0.2, 4)))
    for c in (b * k, k * b):
        t.close([c.Lx, c.Ly, c.Lz], np.array([b.Lx, b.Ly, b.Lz]) * k, "scaled lengths", rtol=1e-5)
        t.close([c.xy, c.xz, c.yz], [b.xy, b.xz, b.yz], "scaling changed the tilt factors", atol=0, rtol=0)
        t.check(bool(c.is2D) == bool(b.is2D), "scaling changed the dimension")


@contract(100)
def equality(t, rng):
    two = rng.random() < 0.4
    L, s = params(rng, two)
    mk = lambda: Box(Lx=L[0], Ly=L[1], Lz=0 if two else L[2], xy=s[0], xz=s[1], yz=s[2], is2D=bool(two))
    a, b = mk(), mk()
    t.inp(box=box_dict(a))
    t.check(a == b and not (a != b), "equal boxes compare unequal")
    for n in ("Lx", "Ly", "Lz", "xy", "xz", "yz"):
        if two and n == "Lz":
            continue
        c = mk()
        setattr(c, n, getattr(c, n) + 0.37)
        t.check(not (a == c) and a != c, f"boxes with different {n} compare equal")
    for i, n in enumerate(("periodic_x", "periodic_y", "periodic_z")):
        c = mk()
        setattr(c, n, not bool(getattr(c, n)))
        t.check(not (a == c), f"boxes with different {n} compare equal")
        want = [True] * 3
        want[i] = False
        if not two or i < 2:
            t.same(np.asarray(c.periodic, bool)[:2 if two else 3], want[:2 if two else 3], f"{n} setter sets the wrong flag")
    if not two:
        c = mk()
        c.dimensions = 2
        t.check(not (a == c), "2D and 3D boxes compare equal")
    t.check(a != "box" and a != None, "box equals something else")
    pr = [bool(x) for x in rng.random(3) < 0.5]
    a.periodic = pr
    t.same(np.asarray(a.periodic, bool), pr, "periodic setter")
    a.periodic = False
    t.same(np.asarray(a.periodic, bool), [False] * 3, "periodic setter with one value")
