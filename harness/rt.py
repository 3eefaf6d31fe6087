"""Runtime-contract helpers: generators of inputs and reference oracles."""
import itertools

import numpy as np

CONTRACTS = []
TIER = "quick"


class Violation(Exception):
    pass


def contract(n):
    def deco(f):
        CONTRACTS.append((f.__name__, f, n))
        return f
    return deco


class T:
    def __init__(self, name, rng, it=0, n=1):
        self.name, self.rng, self.it, self.n, self.fails, self.desc = name, rng, it, n, [], None

    def inp(self, **kw):
        self.desc = ", ".join(f"{k}={short(v)}" for k, v in kw.items())

    def check(self, ok, what, detail=""):
        if not ok:
            self.fails.append((what, self.name, str(detail)[:1500]))
            raise Violation(what)

    def close(self, a, b, what, rtol=1e-4, atol=1e-4):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.check(False, what, f"shape {a.shape} instead of {b.shape}")
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            d = np.abs(a.astype(complex) - b.astype(complex)) if a.size else np.zeros(1)
            i = np.unravel_index(np.nanargmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if a.size else ()
            self.check(False, what, f"got {a[i]!r} expected {b[i]!r} at {i}; got {short(a)} expected {short(b)}")

    def same(self, a, b, what):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"):
            self.check(False, what, f"got {short(a)} expected {short(b)}")

    def raises(self, f, what, exc=Exception):
        try:
            f()
        except exc:
            return
        except Exception as e:
            self.check(False, what, f"raised {type(e).__name__}: {e}")
        self.check(False, what, "no exception")


def short(v):
    if isinstance(v, np.ndarray):
        if v.size <= 64:
            return np.array2string(v, precision=9, separator=",", threshold=100).replace("\n", "")
        return f"array{v.shape}" + np.array2string(v.ravel()[:24], precision=9, separator=",").replace("\n", "") + "..."
    return str(v)


def f32(x):
    return np.ascontiguousarray(x, dtype=np.float32)


# ---------------------------------------------------------------- geometry oracle
def box_dict(box):
    return dict(Lx=box.Lx, Ly=box.Ly, Lz=box.Lz, xy=box.xy, xz=box.xz, yz=box.yz, is2D=bool(box.is2D), periodic=[bool(x) for x in box.periodic])


def matrix(box):
    """columns are lattice vectors (own formula, not the code's)"""
    Lx, Ly, Lz, xy, xz, yz = [float(x) for x in (box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz)]
    m = np.array([[Lx, xy * Ly, xz * Lz], [0, Ly, yz * Lz], [0, 0, Lz]])
    return m


def frac(box, v):
    """fractional coordinates in [-1/2, 1/2) convention (centred)"""
    m = matrix(box)
    v = np.atleast_2d(np.asarray(v, dtype=np.float64)).copy()
    if box.is2D:
        m2 = m[:2, :2]
        out = np.zeros_like(v)
        out[:, :2] = np.linalg.solve(m2, v[:, :2].T).T
        return out
    return np.linalg.solve(m, v.T).T


def unfrac(box, f):
    m = matrix(box)
    if box.is2D:
        m = m.copy()
        m[:, 2] = 0
        m[2, :] = 0
    return (m @ np.asarray(f, dtype=np.float64).T).T


def wrap(box, v):
    """the representative of v in the primary cell (periodic directions only)"""
    f = frac(box, v)
    for i in range(2 if box.is2D else 3):
        if box.periodic[i]:
            f[:, i] -= np.floor(f[:, i] + 0.5)
    return unfrac(box, f)


def random_box(freud, rng, dim=None, L=None, tilt=True, cubic=False):
    dim = dim or int(rng.choice([2, 3]))
    lo, hi = L or (4.0, 9.0)
    Ls = rng.uniform(lo, hi, 3)
    if cubic:
        Ls[:] = Ls[0]
    t = rng.uniform(-0.6, 0.6, 3) if tilt and rng.random() < 0.6 else np.zeros(3)
    if dim == 2:
        return freud.box.Box(Lx=Ls[0], Ly=Ls[1], xy=t[0], is2D=True)
    return freud.box.Box(Lx=Ls[0], Ly=Ls[1], Lz=Ls[2], xy=t[0], xz=t[1], yz=t[2])


def random_points(box, rng, n, margin=1e-3):
    f = rng.uniform(-0.5 + margin, 0.5 - margin, (n, 3))
    if box.is2D:
        f[:, 2] = 0
    p = f32(unfrac(box, f))
    if box.is2D:
        p[:, 2] = 0
    return p


def lattice_points(box, k):
    n = [k, k, 1 if box.is2D else k]
    f = np.array(list(itertools.product(*[(np.arange(x) + 0.25) / x - 0.5 for x in n])))
    if box.is2D:
        f[:, 2] = 0
    return f32(unfrac(box, f))


def plane_distance(box):
    """distance between opposite faces, from the reciprocal lattice"""
    m = matrix(box)
    if box.is2D:
        inv = np.linalg.inv(m[:2, :2])
        return 1 / np.linalg.norm(inv, axis=1)
    inv = np.linalg.inv(m)
    return 1 / np.linalg.norm(inv, axis=1)


def pair_vectors(box, q, p):
    """wrapped vectors r_p - r_q, shape (nq, np, 3)"""
    d = np.asarray(p, dtype=np.float64)[None, :, :] - np.asarray(q, dtype=np.float64)[:, None, :]
    return wrap(box, d.reshape(-1, 3)).reshape(d.shape)


def brute_pairs(box, q, p, r_max, r_min=0.0, exclude_ii=False, eps=2e-4):
    """(sure, maybe): pairs certainly inside, pairs on the boundary within eps"""
    v = pair_vectors(box, q, p)
    d = np.linalg.norm(v, axis=2)
    sure = (d < r_max - eps) & (d >= r_min + (eps if r_min > 0 else 0))
    maybe = (d < r_max + eps) & (d >= r_min - eps)
    if exclude_ii:
        n = min(len(q), len(p))
        sure[np.arange(n), np.arange(n)] = False
        maybe[np.arange(n), np.arange(n)] = False
    return sure, maybe, d, v


def quat_random(rng, n):
    q = rng.normal(size=(n, 4))
    return f32(q / np.linalg.norm(q, axis=1)[:, None])


def qmul(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    s1, v1, s2, v2 = a[..., 0], a[..., 1:], b[..., 0], b[..., 1:]
    s = s1 * s2 - np.sum(v1 * v2, -1)
    v = s1[..., None] * v2 + s2[..., None] * v1 + np.cross(v1, v2)
    return np.concatenate([s[..., None], v], -1)


def qconj(a):
    a = np.asarray(a, float).copy()
    a[..., 1:] *= -1
    return a


def qrot(q, v):
    v = np.asarray(v, float)
    z = np.concatenate([np.zeros(v.shape[:-1] + (1,)), v], -1)
    return qmul(qmul(q, z), qconj(q))[..., 1:]
