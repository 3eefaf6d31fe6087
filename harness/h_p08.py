import numpy as np
import freud
from rt import *
from h_p07 import system, pairs_of, linkcell

CONTRACTS.clear()
L = freud.locality
EPS = 3e-4


def check_nearest(t, name, nl, b, q, p, k, r_max, r_min, ex):
    pr = pairs_of(nl)
    dist = np.asarray(nl.distances, float)
    v = pair_vectors(b, q, p)
    d = np.linalg.norm(v, axis=2)
    for i in range(len(q)):
        js = pr[pr[:, 0] == i, 1]
        t.check(len(set(js.tolist())) == len(js), f"{name}: duplicate neighbours", (i, js))
        if ex:
            t.check(i not in js, f"{name}: self neighbour with exclude_ii", (i, js))
        cand = np.ones(len(p), bool)
        if ex and i < len(p):
            cand[i] = False
        sure = np.sum(cand & (d[i] < r_max - EPS) & (d[i] >= r_min + (EPS if r_min > 0 else 0)))
        maybe = np.sum(cand & (d[i] < r_max + EPS) & (d[i] >= r_min - EPS))
        t.check(min(k, sure) <= len(js) <= min(k, maybe), f"{name}: wrong number of neighbours",
                f"query point {i}: {len(js)} neighbours, {sure} available, k={k}")
        dd = np.sort(d[i][cand & (d[i] >= r_min - EPS)])
        got = d[i][js]
        # with r_min a candidate near r_min is ambiguous; compare distances only when clear
        if np.all(np.abs(d[i] - r_min) > EPS) or r_min == 0:
            t.close(np.sort(got), dd[:len(js)], f"{name}: not the nearest neighbours (query point {i})", rtol=1e-4, atol=EPS)
        t.check(np.all(np.diff(dist[pr[:, 0] == i]) >= -1e-5), f"{name}: neighbours are not in order of distance (query point {i})")


def case(rng, nmax=30):
    b, p, q = system(rng, nmax)
    if rng.random() < 0.3:
        # elongated boxes
        Ls = rng.uniform(3, 6, 3)
        Ls[rng.integers(3)] *= rng.uniform(2, 6)
        b = freud.box.Box(*Ls) if rng.random() < 0.7 else freud.box.Box(Ls[0], Ls[1], is2D=True)
        p, q = random_points(b, rng, int(rng.integers(1, nmax))), random_points(b, rng, int(rng.integers(1, nmax)))
    same = rng.random() < 0.5
    ex = bool(rng.random() < 0.5)
    k = int(rng.integers(1, 14))
    args = dict(mode="nearest", num_neighbors=k, exclude_ii=ex)
    r_max, r_min = np.inf, 0.0
    if rng.random() < 0.5:
        r_max = float(rng.uniform(0.26, 0.49)) * plane_distance(b).min()
        args["r_max"] = r_max
    if rng.random() < 0.35:
        r_min = float(rng.uniform(0.02, 0.25)) * plane_distance(b).min()
        args["r_min"] = r_min
    if rng.random() < 0.5:
        args["r_guess"] = float(rng.uniform(0.05, 0.49 if rng.random() < 0.6 else 4.0)) * plane_distance(b).min()
    if rng.random() < 0.5:
        args["scale"] = float(rng.uniform(1.02, 2.5))
    if rng.random() < 0.4:
        del args["mode"]
    return b, p, (p if same else q), same, args, k, r_max, r_min, ex


@contract(160)
def nearest_queries(t, rng):
    b, p, q, same, args, k, r_max, r_min, ex = case(rng)
    t.inp(box=box_dict(b), points=p, query_points="points" if same else q, args=args)
    # the neighbours beyond half the plane distance are not unique images
    v = pair_vectors(b, q, p)
    d = np.linalg.norm(v, axis=2)
    half = plane_distance(b).min() / 2
    if not np.isfinite(r_max):
        # unlimited queries reach beyond half the plane distance; there the wrapped
        # vector of a strongly tilted box need not be the shortest image
        if b.xy or b.xz or b.yz:
            args["r_max"] = r_max = float(half) * 0.99
    nq = linkcell(b, p) + [("AABBQuery", L.AABBQuery(b, p)), ("raw points", L.NeighborQuery.from_system((b, p))),
          ("LinkCell(width)", L.LinkCell(b, p, float(rng.uniform(0.15, 0.49)) * plane_distance(b).min()))]
    for name, e in nq:
        nl = e.query(q, args).toNeighborList(sort_by_distance=True)
        check_nearest(t, name, nl, b, q, p, k, r_max, r_min, ex)


@contract(80)
def guess_independence(t, rng):
    b, p, q = system(rng)
    half = float(plane_distance(b).min()) / 2
    k = int(rng.integers(1, 8))
    r_max = 0.98 * half
    t.inp(box=box_dict(b), points=p, query_points=q, k=k, r_max=r_max)
    ref = None
    for g, s in [(None, None), (0.02 * half, 1.1), (0.5 * half, 1.5), (0.97 * half, 3.0), (0.2 * half, 1.01)]:
        for name, e in [("AABBQuery", L.AABBQuery(b, p))] + linkcell(b, p):
            a = dict(mode="nearest", num_neighbors=k, r_max=r_max)
            if g:
                a["r_guess"], a["scale"] = g, s
            nl = e.query(q, a).toNeighborList(sort_by_distance=True)
            x = (np.asarray(nl.neighbor_counts), np.asarray(nl.distances))
            if ref is None:
                ref = x
            t.same(x[0], ref[0], f"{name}: neighbour counts depend on r_guess/scale/engine")
            t.close(x[1], ref[1], f"{name}: neighbour distances depend on r_guess/scale/engine")
