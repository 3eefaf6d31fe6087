"""P09: bond fields; precomputed lists against live queries."""
import numpy as np
import freud
from rt import *
from computes import REG, Frame, nl_fields, assert_same

ENG = ["aabb", "link", "cell", "raw"]


def engine(f, e, rng):
    if e == "aabb":
        return freud.locality.AABBQuery(f.box, f.p)
    if e == "link":
        return freud.locality.LinkCell(f.box, f.p, float(rng.uniform(0.3, 0.95)) * f.limit)
    if e == "cell":
        return freud.locality.CellQuery(f.box, f.p)
    return freud.locality._RawPoints(f.box, f.p)


def fieldcheck(t, f, g, what):
    i, j = g["idx"][:, 0].astype(int), g["idx"][:, 1].astype(int)
    t.check(np.all(i < f.nq) and np.all(j < f.n), what + ": index out of range", g["idx"])
    v, d = g["vectors"].reshape(-1, 3).astype(float), g["distances"]
    t.close(d, np.linalg.norm(v, axis=1), what + ": distance is not the length of the vector", atol=2e-5)
    sep = (f.p[j].astype(float) - f.qp()[i])
    fr = frac(f.box, v - sep)
    t.close(fr, np.round(fr), what + ": vector is not the separation up to lattice vectors", atol=2e-4)
    near = d < f.limit * 0.999
    t.close(v[near], wrap(f.box, sep)[near], what + ": vector is not the wrapped separation", atol=4e-4)
    t.same(g["weights"], np.ones(len(i), np.float32), what + ": weights are not 1")


@contract(120)
def bond_fields(t, rng):
    f = Frame(rng, n=int(rng.integers(1, 30)))
    args = f.args(rng)
    e = str(rng.choice(ENG if args["mode"] == "ball" else [x for x in ENG if x != "cell"]))
    t.inp(**f.desc(), args=args, engine=e)
    q = engine(f, e, rng)
    nl = q.query(f.qp(), args).toNeighborList()
    g = nl_fields(nl)
    fieldcheck(t, f, g, e)
    it = [(int(a), int(b), float(d)) for a, b, d in q.query(f.qp(), args)]
    a = sorted((x[0], x[1]) for x in it)
    b = sorted(map(tuple, g["idx"].astype(int).tolist()))
    t.check(a == b, "iterating and converting to a list give different bonds", (a, b))
    dist = {(int(x), int(y)): float(d) for (x, y), d in zip(g["idx"], g["distances"])}
    t.check(all(abs(dist[x[0], x[1]] - x[2]) < 1e-6 for x in it), "iterated distances differ", it)


@contract(10)
def no_query_points(t, rng):
    f = Frame(rng, n=int(rng.integers(1, 30)))
    args = f.args(rng)
    e = str(rng.choice(ENG if args["mode"] == "ball" else [x for x in ENG if x != "cell"]))
    t.inp(**f.desc(), args=args, engine=e)
    q = engine(f, e, rng)
    none = np.ascontiguousarray(f.p[:0])
    t.check(list(q.query(none, args)) == [], "iterating a query without query points gives bonds")
    t.check(len(q.query(none, args).toNeighborList()) == 0, "a query without query points gives a list with bonds")


@contract(40)
def all_pairs_fields(t, rng):
    f = Frame(rng)
    t.inp(**f.desc())
    fieldcheck(t, f, nl_fields(freud.locality.NeighborList.all_pairs((f.box, f.p), f.q)), "all_pairs")


@contract(60)
def from_arrays_distance(t, rng):
    k = int(rng.integers(0, 20))
    v = f32(rng.normal(size=(k, 3)))
    i = np.sort(rng.integers(0, 5, k))
    t.inp(i=i, v=v)
    nl = freud.locality.NeighborList.from_arrays(5, 7, i, rng.integers(0, 7, k), v)
    t.close(nl.distances, np.linalg.norm(v.astype(float), axis=1), "distance is not the length of the vector", atol=1e-5)


def one(c):
    def lists_and_queries(t, rng):
        f = c.frame(rng)
        args = f.args(rng)
        seed = int(rng.integers(1 << 30))
        o = [c.make(np.random.default_rng(seed)) for _ in range(3)]
        t.inp(**f.desc(), args=args, cls=c.name)
        nl = f.nlist(args)
        c.run(o[0], f, args)
        c.run(o[1], f, nl)
        a, b = c.res(o[0]), c.res(o[1])
        assert_same(t, a, b, c.name + ": list and query arguments", exact=False, rtol=2e-4, atol=2e-5)
        # the same bonds as an independent list of bonds
        g = nl_fields(nl)
        cp = freud.locality.NeighborList.from_arrays(f.nq, f.n, g["idx"][:, 0], g["idx"][:, 1], g["vectors"].reshape(-1, 3))
        c.run(o[2], f, cp)
        assert_same(t, a, c.res(o[2]), c.name + ": list rebuilt from its arrays", exact=False, rtol=2e-4, atol=2e-5)
        for k, v in nl_fields(nl).items():
            t.same(v, g[k], c.name + " changes the neighbour list it is given: " + k)
    lists_and_queries.__name__ = "lists_and_queries_" + c.name
    return lists_and_queries


for _c in REG:
    contract(14)(one(_c))
