"""P06: NeighborList invariants and operations."""
import numpy as np
import freud
from rt import *
from computes import Frame, nl_fields

NL = freud.locality.NeighborList


def raw(rng, zero=0.1):
    """arrays of a random valid bond list (gaps, repeated bonds and empty lists included)"""
    nq, n = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    k = 0 if rng.random() < zero else int(rng.integers(0, 40))
    i = np.sort(rng.integers(0, nq, k))
    if rng.random() < 0.4:
        i = np.sort(rng.choice(rng.integers(0, nq, 2), k))
    j = rng.integers(0, n, k)
    v = f32(np.round(rng.normal(size=(k, 3)) * 2, 1 if rng.random() < 0.5 else 6)).reshape(k, 3)
    w = f32(rng.uniform(0, 2, k))
    return nq, n, i.astype(np.uint32), j.astype(np.uint32), v, w


def make(a):
    return NL.from_arrays(*a)


def consistent(t, nl, what):
    idx = np.array(nl[:]).reshape(-1, 2)
    nq = nl.num_query_points
    c = np.bincount(idx[:, 0], minlength=nq)
    t.same(np.array(nl.neighbor_counts).astype(int), c, what + ": neighbor_counts are not the numbers of bonds per query point")
    seg = np.array(nl.segments).astype(int)
    t.check(len(seg) == nq, what + ": one segment per query point", seg)
    first = np.searchsorted(idx[:, 0], np.arange(nq))
    t.same(seg[c > 0], first[c > 0], what + ": segments are not the first bonds")
    t.check(len(nl) == len(idx), what + ": len", len(nl))
    for i in range(nq + 2):
        if len(idx):
            t.check(nl.find_first_index(i) == np.searchsorted(idx[:, 0], i), what + ": find_first_index", (i, nl.find_first_index(i), idx[:, 0]))
        else:
            t.check(nl.find_first_index(i) == 0, what + ": find_first_index of an empty list", i)


def fields(a):
    nq, n, i, j, v, w = a
    return dict(idx=np.stack([i, j], 1).astype(np.uint32), distances=np.linalg.norm(v.astype(float), axis=1), vectors=v, weights=w, n=np.array([nq, n]))


def match(t, nl, f, what):
    g = nl_fields(nl)
    t.same(g["idx"].astype(int), f["idx"].astype(int), what + ": bonds")
    t.close(g["distances"], f["distances"], what + ": distances", rtol=1e-5, atol=1e-6)
    t.same(g["vectors"], f["vectors"].reshape(-1, 3), what + ": vectors")
    t.same(g["weights"], f["weights"], what + ": weights")
    t.same(g["n"].astype(int), f["n"].astype(int), what + ": numbers of points")


def select(f, keep):
    return dict(idx=f["idx"][keep], distances=f["distances"][keep], vectors=f["vectors"][keep], weights=f["weights"][keep], n=f["n"])


@contract(120)
def from_arrays(t, rng):
    a = raw(rng)
    t.inp(a=a)
    nl = make(a)
    match(t, nl, fields(a), "from_arrays")
    consistent(t, nl, "from_arrays")
    b = NL.from_arrays(*a[:5])
    t.same(np.array(b.weights), np.ones(len(a[2]), np.float32), "default weights are not 1")
    t.same(np.array(nl.query_point_indices), a[2], "query_point_indices")
    t.same(np.array(nl.point_indices), a[3], "point_indices")


@contract(60)
def from_arrays_rejects(t, rng):
    nq, n, i, j, v, w = raw(rng, zero=0)
    k = len(i)
    if k < 2:
        return
    t.inp(nq=nq, n=n, i=i, j=j)
    at = int(rng.integers(0, k))
    b = j.copy(); b[at] = n + int(rng.integers(0, 3))
    t.raises(lambda: NL.from_arrays(nq, n, i, b, v, w), "a point index out of range is accepted")
    b = i.copy(); b[-1] = nq + int(rng.integers(0, 3))
    t.raises(lambda: NL.from_arrays(nq, n, b, j, v, w), "a query point index out of range is accepted")
    if i[0] != i[-1]:
        b = i[::-1].copy()
        t.raises(lambda: NL.from_arrays(nq, n, b, j, v, w), "unsorted query point indices are accepted")
        at = int(rng.integers(1, k))
        if i[at] > 0 and at + 1 < k:
            b = i.copy(); b[at + 1] = 0
            t.raises(lambda: NL.from_arrays(nq, n, b, j, v, w), "a decreasing query point index is accepted")
    for d in (-1, 1):
        m = k + d
        t.raises(lambda: NL.from_arrays(nq, n, i, np.zeros(m, np.uint32), v, w), "point indices of another length are accepted")
        t.raises(lambda: NL.from_arrays(nq, n, i, j, np.zeros((m, 3), np.float32), w), "vectors of another length are accepted")
        t.raises(lambda: NL.from_arrays(nq, n, i, j, v, np.ones(m, np.float32)), "weights of another length are accepted")


@contract(100)
def operations(t, rng):
    """sequences of filter, filter_r, sort, copy and reads"""
    a = raw(rng)
    nl = make(a)
    f = fields(a)
    ops = []
    for step in range(int(rng.integers(1, 7))):
        op = str(rng.choice(["filter", "filter_r", "sort", "sortd", "copy", "read", "copyinto"]))
        ops.append(op)
        t.inp(a=a, ops=ops)
        if op == "read":
            consistent(t, nl, "read")
        elif op == "filter":
            keep = rng.random(len(f["idx"])) < rng.choice([0, 0.3, 0.8, 1])
            ops[-1] = ("filter", keep)
            r = nl.filter(keep if rng.random() < 0.7 else keep.tolist())
            t.check(r is nl, "filter does not return the list")
            f = select(f, keep)
        elif op == "filter_r":
            hi = float(rng.uniform(0.5, 5))
            lo = float(rng.choice([0, 0.5])) * hi
            d = np.array(nl.distances)
            if len(d) and np.min(np.abs(d[:, None] - [[hi, lo]])) < 1e-5:
                continue
            ops[-1] = ("filter_r", hi, lo)
            nl.filter_r(hi, lo)
            f = select(f, (f["distances"] >= lo) & (f["distances"] < hi))
        elif op in ("sort", "sortd"):
            before = nl_fields(nl)
            nl.sort(by_distance=op == "sortd")
            g = nl_fields(nl)
            d = before["distances"]
            i0, j0 = before["idx"].astype(int).T
            if op == "sortd":
                key = np.lexsort((j0, d, i0))
                t.same(g["distances"], d[key], "sort(by_distance=True): order of distances")
            else:
                key = np.lexsort((j0, i0))
            t.same(g["idx"], before["idx"][key], op + ": order of bonds")

            def rows(x):
                m = np.column_stack([x["idx"], x["distances"], x["vectors"], x["weights"]])
                return m[np.lexsort(m.T)]
            t.same(rows(g), rows(before), op + " changes the set of bonds")
            f = dict(g, distances=g["distances"])
        elif op == "copy":
            c = nl.copy()
            match(t, c, f, "copy")
            if rng.random() < 0.5:
                c.filter(np.zeros(len(c), bool))
                match(t, nl, f, "the original after its copy was filtered")
            else:
                old, nl = nl, c
                c0 = nl_fields(old)
                nl.filter(rng.random(len(nl)) < 2)
                old.filter(np.zeros(len(old), bool))
        else:
            other = make(raw(rng))
            other.neighbor_counts
            other.copy(nl)
            match(t, other, f, "copy into")
            nl = other
        match(t, nl, f, str(ops[-1]))
        if rng.random() < 0.5:
            consistent(t, nl, str(ops[-1]))
    consistent(t, nl, "at the end")


@contract(40)
def filter_r_arguments(t, rng):
    nl = make(raw(rng))
    t.inp(n=len(nl))
    before = nl_fields(nl)
    t.raises(lambda: nl.filter_r(0.0), "r_max = 0 accepted")
    t.raises(lambda: nl.filter_r(-1.0), "negative r_max accepted")
    t.raises(lambda: nl.filter_r(1.0, -0.5), "negative r_min accepted")
    t.raises(lambda: nl.filter_r(1.0, 1.0), "r_min = r_max accepted")
    t.raises(lambda: nl.filter(np.ones(len(nl) + 1, bool)), "a longer mask is accepted")
    for k, v in before.items():
        t.same(nl_fields(nl)[k], v, "a rejected call changed the list")


@contract(60)
def all_pairs(t, rng):
    f = Frame(rng)
    ex = bool(rng.random() < 0.6)
    t.inp(**f.desc(), exclude_ii=ex)
    nl = NL.all_pairs((f.box, f.p), f.q, exclude_ii=ex)
    q = f.qp()
    want = [(i, j) for i in range(len(q)) for j in range(len(f.p)) if not (ex and i == j)]
    t.same(np.array(nl[:]).reshape(-1, 2).astype(int), np.array(want, int).reshape(-1, 2), "not every pair once in order")
    v = pair_vectors(f.box, q, f.p)
    w = np.array(want, int).reshape(-1, 2)
    d = np.linalg.norm(v, axis=2)[w[:, 0], w[:, 1]]
    fr = frac(f.box, v[w[:, 0], w[:, 1]])
    clear = np.all(np.abs(np.abs(fr) - 0.5) > 1e-3, axis=1)
    t.close(np.array(nl.distances)[clear], d[clear], "distances are not the wrapped distances", atol=2e-4)
    t.close(np.array(nl.vectors)[clear], v[w[:, 0], w[:, 1]][clear], "vectors are not the wrapped separations", atol=3e-4)
    t.same(np.array(nl.weights), np.ones(len(want), np.float32), "weights are not 1")
    t.check((nl.num_query_points, nl.num_points) == (len(q), len(f.p)), "numbers of points", (nl.num_query_points, nl.num_points))
    consistent(t, nl, "all_pairs")


@contract(1)
def all_pairs_tie(t, rng):
    """a pair exactly half a box vector apart in a tilted box"""
    box, p = freud.box.Box(8, 8, 8, 0.5, 0, 0), np.array([[0, 0, 0], [4, 4, 0]], np.float32)
    t.inp(box=box, points=p)
    nl = NL.all_pairs((box, p))
    t.close(nl.distances, np.linalg.norm(nl.vectors, axis=1), "all_pairs tie: the distance is not the length of the vector", atol=1e-4)


@contract(40)
def queried_lists(t, rng):
    f = Frame(rng, n=int(rng.integers(1, 30)))
    args = f.args(rng)
    t.inp(**f.desc(), args=args)
    nl = f.nlist(args)
    consistent(t, nl, "queried list")
    t.check((nl.num_query_points, nl.num_points) == (f.nq, f.n), "numbers of points", (nl.num_query_points, nl.num_points))
    nl2 = f.query(args).toNeighborList(sort_by_distance=True)
    i, d = np.array(nl2.query_point_indices).astype(int), np.array(nl2.distances)
    t.check(np.all(np.diff(i) >= 0) and np.all((np.diff(i) > 0) | (np.diff(d) >= 0)), "sort_by_distance does not sort", (i, d))
    nl.sort(by_distance=True)
    t.same(np.array(nl[:]), np.array(nl2[:]), "sort_by_distance and sort(by_distance) disagree")
