import numpy as np
import freud
from rt import *
from computes import Frame
NL = freud.locality.NeighborList


def components(n, pairs):
    par = list(range(n))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for i, j in pairs:
        par[find(i)] = find(j)
    return [find(i) for i in range(n)]


def verify(t, o, n, pairs, keys):
    comp = components(n, pairs)
    idx = np.asarray(o.cluster_idx).astype(int)
    t.check(idx.shape == (n,), "cluster_idx has the wrong length", idx.shape)
    m = {}
    for i in range(n):
        m.setdefault(comp[i], set()).add(int(idx[i]))
    bad = {c: s for c, s in m.items() if len(s) > 1}
    t.check(not bad, "connected points have different cluster indices", bad)
    t.check(len({next(iter(s)) for s in m.values()}) == len(m), "unconnected points share a cluster index", idx)
    k = len(m)
    t.check(o.num_clusters == k, "num_clusters is not the number of clusters", (o.num_clusters, k))
    t.check(set(idx.tolist()) == set(range(k)), "cluster indices are not 0..n-1", idx)
    sizes = np.bincount(idx, minlength=k)
    t.check(np.all(np.diff(sizes) <= 0), "clusters are not ordered by decreasing size", sizes)
    ck = o.cluster_keys
    t.check(len(ck) == k, "number of key lists", len(ck))
    kk = np.arange(n) if keys is None else keys
    for c in range(k):
        t.check(sorted(int(x) for x in ck[c]) == sorted(int(kk[i]) for i in range(n) if idx[i] == c), "cluster_keys are not the keys of the cluster's members", (c, ck[c]))


@contract(220)
def queries(t, rng):
    f = Frame(rng, same=True, n=int(rng.integers(1, 45)))
    args = f.args(rng)
    args.pop("r_min", None)
    args["r_max"] = float(rng.uniform(0.1, 0.9)) * f.limit
    nl = f.nlist(args)
    keys = f.keys if rng.random() < 0.5 else None
    t.inp(**f.desc(), neighbors=args, keys=keys)
    o = freud.cluster.Cluster().compute((f.box, f.p), keys=keys, neighbors=nl if rng.random() < 0.5 else args)
    verify(t, o, f.n, np.asarray(nl[:]).reshape(-1, 2).tolist(), keys)


@contract(260)
def graphs(t, rng):
    """arbitrary bond lists: directed chains, stars, self loops, duplicates, no bonds"""
    n = int(rng.integers(1, 60))
    kind = rng.integers(0, 5)
    if kind == 0:
        pairs = [(i, i + 1) for i in range(n - 1) if rng.random() < 0.8]
    elif kind == 1:
        perm = rng.permutation(n)
        pairs = [(int(perm[i]), int(perm[i + 1])) for i in range(n - 1) if rng.random() < 0.85]
    elif kind == 2:
        pairs = [(int(a), int(b)) for a, b in rng.integers(0, n, (int(rng.integers(0, 2 * n + 1)), 2))]
    elif kind == 3:
        pairs = [(int(rng.integers(0, n)), 0) for _ in range(n // 2)] + [(i, i) for i in range(0, n, 3)]
    else:
        pairs = []
    pairs = sorted(pairs)
    b = freud.box.Box.cube(10)
    p = random_points(b, rng, n)
    q = np.array([a for a, _ in pairs], np.uint32)
    r = np.array([a for _, a in pairs], np.uint32)
    nl = NL.from_arrays(n, n, q, r, f32(np.ones((len(pairs), 3))))
    keys = rng.integers(0, 2**32 - 1, n, dtype=np.uint32) if rng.random() < 0.5 else None
    t.inp(points=n, bonds=pairs, keys=keys)
    o = freud.cluster.Cluster()
    if rng.random() < 0.3:  # an earlier compute leaves nothing behind
        o.compute((b, random_points(b, rng, int(rng.integers(1, 30)))), neighbors=dict(r_max=2.0))
    o.compute((b, p), keys=keys, neighbors=nl)
    verify(t, o, n, pairs, keys)


import computes as _c
contract(40)(_c.reuse_of("Cluster"))
