import numpy as np
import freud
from rt import *
from computes import Frame, nl_fields
NL = freud.locality.NeighborList


def bonds(nl):
    ij = np.asarray(nl[:]).reshape(-1, 2)
    return [(int(i), int(j), float(d), float(w), tuple(float(x) for x in v)) for (i, j), d, w, v in zip(ij, nl.distances, nl.weights, np.asarray(nl.vectors).reshape(-1, 3))]


def sann(d):
    """number of neighbours of sorted distances d and whether the shell is complete; None near a tie"""
    m = 3
    if len(d) <= 3:
        return min(3, len(d)), False
    while m < len(d):
        r = sum(d[:m]) / (m - 2)
        if abs(r - d[m]) < 1e-4 * d[m]:
            return None, None
        if r <= d[m]:
            return m, True
        m += 1
    return m, False


def rad(vec, dist, radii, closed):
    keep, blocked_any = [], False
    for j in range(len(dist)):
        good = True
        for k in range(j):
            a = radii[j] ** 2 * dist[k] ** 2 * dist[j] * dist[k]
            b = radii[k] ** 2 * np.dot(vec[j], vec[k]) * dist[j] ** 2
            if abs(a - b) < 2e-4 * max(abs(a), abs(b)):
                return None, None
            if a < b:
                good = False
                break
        if good:
            keep.append(j)
        else:
            blocked_any = True
            if closed:
                break
    return keep, blocked_any


def gen(rng):
    f = Frame(rng, n=int(rng.integers(2, 30)), L=(4.0, 7.0))
    k = rng.random()
    if k < 0.6:
        a = dict(mode="ball", r_max=float(rng.uniform(0.2, 0.97)) * f.limit, exclude_ii=f.q is None)
    elif k < 0.9:
        a = dict(mode="nearest", num_neighbors=int(rng.integers(1, 14)), exclude_ii=f.q is None)
    else:
        a = None
    return f, a


def source(f, a):
    """unfiltered list and the neighbors argument"""
    if a is None:
        return NL.all_pairs((f.box, f.p), f.q, f.q is None), None
    return f.nlist(a), a


def verify(t, name, o, f, un, want):
    fl = o.filtered_nlist
    t.check(fl.num_query_points == un.num_query_points and fl.num_points == un.num_points, f"{name}: numbers of points of the filtered list", (fl.num_query_points, fl.num_points))
    B = bonds(fl)
    U = {}
    for x in bonds(un):
        U.setdefault(x, 0)
        U[x] += 1
    for x in B:
        t.check(U.get(x, 0) > 0, f"{name}: a filtered bond differs from all unfiltered bonds", x)
        U[x] -= 1
    t.check([x[0] for x in B] == sorted(x[0] for x in B), f"{name}: filtered list not ordered by query point")
    got = [[] for _ in range(f.nq)]
    for x in B:
        got[x[0]].append(x[1])
    for i in range(f.nq):
        if want[i] is None:
            continue
        t.check(sorted(got[i]) == sorted(want[i]), f"{name}: wrong neighbours kept", f"query point {i}: {sorted(got[i])} expected {sorted(want[i])}")
    t.same(fl.neighbor_counts, np.bincount([x[0] for x in B], minlength=f.nq), f"{name}: neighbor counts of the filtered list")
    un2 = o.unfiltered_nlist
    t.check(len(un2) == len(un), f"{name}: unfiltered_nlist", len(un2))


@contract(220)
def filter_sann(t, rng):
    f, a = gen(rng)
    un, nb = source(f, a)
    t.inp(**f.desc(), neighbors=a)
    want, incomplete, unknown = [], False, False
    ij = np.asarray(un[:]).reshape(-1, 2)
    d = np.asarray(un.distances, float)
    for i in range(f.nq):
        s = np.where(ij[:, 0] == i)[0]
        s = s[np.argsort(d[s], kind="stable")]
        m, full = sann(list(d[s]))
        if m is None or np.any(np.diff(d[s]) < 1e-6):
            want.append(None)
            unknown = True
            continue
        want.append([int(ij[x, 1]) for x in s[:m]])
        incomplete |= not full
    nbr = nb if nb is None or rng.random() < 0.5 else un
    o = freud.locality.FilterSANN(allow_incomplete_shell=True).compute((f.box, f.p), neighbors=nbr, query_points=f.q)
    verify(t, "SANN", o, f, un, want)
    if not unknown:
        g = freud.locality.FilterSANN()
        call = lambda: g.compute((f.box, f.p), neighbors=nbr, query_points=f.q)
        if incomplete:
            t.raises(call, "SANN: an incomplete shell is accepted", RuntimeError)
        else:
            call()


@contract(220)
def filter_rad(t, rng):
    f, a = gen(rng)
    un, nb = source(f, a)
    closed = bool(rng.random() < 0.5)
    radii = f.rad if rng.random() < 0.5 else None
    t.inp(**f.desc(), neighbors=a, terminate_after_blocked=closed, points_radii=radii)
    ij = np.asarray(un[:]).reshape(-1, 2)
    d = np.asarray(un.distances, float)
    v = pair_vectors(f.box, f.qp(), f.p)
    R = np.ones(f.n) if radii is None else radii.astype(float)
    want, incomplete, unknown = [], False, False
    for i in range(f.nq):
        s = np.where(ij[:, 0] == i)[0]
        s = s[np.argsort(d[s], kind="stable")]
        js = ij[s, 1]
        if len(s) and np.abs(np.asarray(un.vectors, float).reshape(-1, 3)[s] - v[i, js]).max() > 1e-3:
            want.append(None)  # nearest bonds beyond half the box in tilted boxes lead to other images
            unknown = True
            continue
        k, blocked = rad(v[i, js], d[s], R[js], closed)
        if k is None or np.any(np.diff(d[s]) < 1e-6):
            want.append(None)
            unknown = True
            continue
        want.append([int(js[x]) for x in k])
        incomplete |= closed and not blocked
    nbr = nb if nb is None or rng.random() < 0.5 else un
    kw = {} if radii is None else dict(points_radii=radii)
    o = freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=closed).compute((f.box, f.p), neighbors=nbr, query_points=f.q, **kw)
    verify(t, "RAD", o, f, un, want)
    if not unknown:
        g = freud.locality.FilterRAD(terminate_after_blocked=closed)
        call = lambda: g.compute((f.box, f.p), neighbors=nbr, query_points=f.q, **kw)
        if incomplete:
            t.raises(call, "RAD: an incomplete shell is accepted", RuntimeError)
        else:
            call()


@contract(30)
def empty_lists(t, rng):
    f = Frame(rng)
    t.inp(**f.desc())
    nl = NL.from_arrays(f.nq, f.n, np.zeros(0, np.uint32), np.zeros(0, np.uint32), np.zeros((0, 3), np.float32))
    for o in (freud.locality.FilterSANN(allow_incomplete_shell=True), freud.locality.FilterRAD(allow_incomplete_shell=True)):
        o.compute((f.box, f.p), neighbors=nl, query_points=f.q)
        fl = o.filtered_nlist
        t.check(len(fl) == 0 and fl.num_query_points == f.nq and fl.num_points == f.n, "filtering an empty list", (len(fl), fl.num_query_points, fl.num_points))


@contract(60)
def user_weights(t, rng):
    """lists with weights and unsorted bonds per query point keep their fields"""
    f = Frame(rng, n=int(rng.integers(5, 25)))
    un = f.nlist(dict(mode="ball", r_max=0.95 * f.limit, exclude_ii=f.q is None))
    w = f32(rng.uniform(0.1, 5, len(un)))
    nl = NL.from_arrays(f.nq, f.n, un.query_point_indices, un.point_indices, un.vectors, w)
    t.inp(**f.desc(), weights=w)
    for o in (freud.locality.FilterSANN(allow_incomplete_shell=True), freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=bool(rng.random() < 0.5))):
        o.compute((f.box, f.p), neighbors=nl, query_points=f.q)
        B = set(bonds(nl))
        for x in bonds(o.filtered_nlist):
            t.check(x in B, "a filtered bond differs from all unfiltered bonds", x)


import computes as _c
contract(40)(_c.reuse_of("FilterSANN"))
contract(40)(_c.reuse_of("FilterRAD"))
