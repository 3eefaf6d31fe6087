import numpy as np
import freud
from rt import *

L = freud.locality


def linkcell(b, p):
    """with the default cell width, when that is accepted (it is too wide for few points)"""
    try:
        return [("LinkCell", L.LinkCell(b, p))]
    except RuntimeError:
        return []


def engines(b, p, rng):
    """(name, query object)"""
    out = linkcell(b, p) + [("AABBQuery", L.AABBQuery(b, p)), ("CellQuery", L.CellQuery(b, p)),
           ("raw points", L.NeighborQuery.from_system((b, p)))]
    w = float(rng.uniform(0.15, 0.49)) * plane_distance(b).min()
    out.append((f"LinkCell(cell_width={w:.4g})", L.LinkCell(b, p, w)))
    return out


def pairs_of(nl):
    return np.asarray(nl[:]).reshape(-1, 2)


def system(rng, nmax=40):
    b = random_box(freud, rng, L=(3.0, 9.0))
    kind = rng.random()
    n, m = int(rng.integers(1, nmax)), int(rng.integers(1, nmax))
    if kind < 0.15:
        p = lattice_points(b, int(rng.integers(2, 4)))
    elif kind < 0.3:
        # clumps near the faces and corners of the box
        f = np.sign(rng.uniform(-1, 1, (n, 3))) * rng.uniform(0.42, 0.4999, (n, 3))
        if b.is2D:
            f[:, 2] = 0
        p = f32(unfrac(b, f))
    else:
        p = random_points(b, rng, n)
    q = random_points(b, rng, m)
    return b, p, q


def check_ball(t, name, nl, b, q, p, r_max, r_min, ex, nq, np_):
    pr = pairs_of(nl)
    sure, maybe, d, v = brute_pairs(b, q, p, r_max, r_min, ex)
    t.check(nl.num_query_points == nq and nl.num_points == np_, f"{name}: numbers of points of the list", (nl.num_query_points, nl.num_points))
    if len(pr):
        t.check(pr.min() >= 0 and pr[:, 0].max() < nq and pr[:, 1].max() < np_, f"{name}: index out of range")
    got = np.zeros((nq, np_), int)
    np.add.at(got, (pr[:, 0], pr[:, 1]), 1)
    if got.max(initial=0) > 1:
        t.check(False, f"{name}: a pair is reported more than once", np.argwhere(got > 1)[:4])
    miss = sure & (got == 0)
    if miss.any():
        i, j = np.argwhere(miss)[0]
        t.check(False, f"{name}: a pair within range is missing", f"pair {(i, j)} distance {d[i, j]}")
    extra = (got > 0) & ~maybe
    if extra.any():
        i, j = np.argwhere(extra)[0]
        t.check(False, f"{name}: a pair out of range is reported", f"pair {(i, j)} distance {d[i, j]}")


@contract(140)
def ball_queries(t, rng):
    b, p, q = system(rng)
    same = rng.random() < 0.5
    if same:
        q = p
    n = plane_distance(b).min()
    r_max = float(rng.uniform(0.05, 0.498)) * n
    r_min = 0.0 if rng.random() < 0.6 else float(rng.uniform(0, r_max))
    ex = bool(rng.random() < 0.5)
    t.inp(box=box_dict(b), points=p, query_points="points" if same else q, r_max=r_max, r_min=r_min, exclude_ii=ex)
    args = dict(mode="ball", r_max=r_max, r_min=r_min, exclude_ii=ex)
    if r_min == 0 and rng.random() < 0.5:
        del args["r_min"]
    for name, nq in engines(b, p, rng):
        a = dict(args)
        if rng.random() < 0.5:
            del a["mode"]
        nl = nq.query(q, a).toNeighborList(sort_by_distance=bool(rng.random() < 0.3))
        check_ball(t, name, nl, b, q, p, r_max, r_min, ex, len(q), len(p))


@contract(60)
def query_order(t, rng):
    b, p, q = system(rng)
    n = plane_distance(b).min()
    r_max = float(rng.uniform(0.2, 0.495)) * n
    perm = rng.permutation(len(q))
    t.inp(box=box_dict(b), points=p, query_points=q, r_max=r_max, order=perm)
    for name, nq in engines(b, p, rng):
        a = pairs_of(nq.query(q, dict(r_max=r_max)).toNeighborList())
        c = pairs_of(nq.query(q[perm], dict(r_max=r_max)).toNeighborList())
        A = set(map(tuple, a.tolist()))
        C = set((int(perm[i]), int(j)) for i, j in c.tolist())
        t.check(A == C, f"{name}: the result depends on the order of the query points", (A ^ C))
        one = set()
        k = int(rng.integers(len(q)))
        for i, j in pairs_of(nq.query(q[k], dict(r_max=r_max)).toNeighborList()).tolist():
            one.add(j)
        t.check(one == set(j for i, j in A if i == k), f"{name}: a single query point has other neighbours", one)


@contract(60)
def limits(t, rng):
    b, p, q = system(rng, 12)
    n = plane_distance(b).min()
    t.inp(box=box_dict(b), points=p, query_points=q)
    for name, nq in engines(b, p, rng):
        r = float(n) * float(rng.uniform(0.503, 0.9))
        if not name.startswith("LinkCell"):  # LinkCell has no upper limit: it uses the wrapped distance
            t.raises(lambda: nq.query(q, dict(r_max=r)).toNeighborList(), f"{name}: r_max above half the plane distance is accepted", RuntimeError)
        nl = nq.query(q, dict(r_max=float(n) * 0.4985)).toNeighborList()
        check_ball(t, name, nl, b, q, p, float(n) * 0.4985, 0, False, len(q), len(p))
    for name, nq in engines(b, p, rng):
        nl = nq.query(np.zeros((0, 3), np.float32), dict(r_max=0.3 * float(n))).toNeighborList()
        t.check(len(nl) == 0, f"{name}: bonds without query points")


@contract(25)
def many_points(t, rng):
    """enough points for several cells / tree levels per thread"""
    b = random_box(freud, rng, L=(8.0, 14.0))
    p = random_points(b, rng, int(rng.integers(150, 400)))
    q = random_points(b, rng, int(rng.integers(1, 60)))
    r_max = float(rng.uniform(0.08, 0.3)) * plane_distance(b).min()
    r_min = 0.0 if rng.random() < 0.5 else 0.5 * r_max
    t.inp(box=box_dict(b), points=p, query_points=q, r_max=r_max, r_min=r_min)
    for name, nq in engines(b, p, rng):
        nl = nq.query(q, dict(r_max=r_max, r_min=r_min)).toNeighborList()
        check_ball(t, name, nl, b, q, p, r_max, r_min, False, len(q), len(p))
        nl = nq.query(p, dict(r_max=r_max, r_min=r_min, exclude_ii=True)).toNeighborList()
        check_ball(t, name, nl, b, p, p, r_max, r_min, True, len(p), len(p))
