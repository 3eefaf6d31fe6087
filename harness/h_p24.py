"""P24: results do not depend on the number of threads (sampled schedules)."""
import numpy as np
import freud
from rt import *
from computes import REG, REG0, Frame, assert_same, nl_fields

NT = (1, 2, 3, 5, 8)


def one(c):
    def threads(t, rng):
        f = c.frame(rng, n=int(rng.integers(20, 150)), **({} if not c.query else dict(m=int(rng.integers(20, 100)))))
        args = f.args(rng, kind="ball" if rng.random() < 0.7 else "nearest") if c.pair else None
        seed = int(rng.integers(1 << 30))
        t.inp(**f.desc(), args=args, cls=c.name)
        frames = int(rng.integers(1, 3)) if c.acc else 1
        nl = rng.random() < 0.5

        def go(n):
            with freud.parallel.NumThreads(n):
                o = c.make(np.random.default_rng(seed))
                for i in range(frames):
                    c.run(o, f, (f.nlist(args) if nl else args) if c.pair else None, i == 0)
                return c.res(o)
        ref = go(1)
        for n in NT[1:]:
            got = go(n)
            t.check(set(ref) == set(got), f"{c.name}: different results")
            for k in ref:
                if k in c.exact or ref[k].dtype.kind in "iub":
                    t.same(got[k], ref[k], f"{c.name} with {n} threads: {k}")
                else:
                    t.close(got[k], ref[k], f"{c.name} with {n} threads: {k}", rtol=1e-4, atol=1e-5)
    threads.__name__ = "threads_" + c.name
    return threads


for _c in REG + REG0:
    contract(4)(one(_c))


@contract(20)
def threads_queries(t, rng):
    f = Frame(rng, n=int(rng.integers(20, 300)))
    args = f.args(rng)
    t.inp(**f.desc(), args=args)
    e = int(rng.integers(3)) if args["mode"] == "ball" else int(rng.integers(2))

    def go(n):
        with freud.parallel.NumThreads(n):
            q = [freud.locality.AABBQuery, lambda b, p: freud.locality.LinkCell(b, p, 0.5 * f.limit), freud.locality.CellQuery][e](f.box, f.p)
            return nl_fields(q.query(f.qp(), args).toNeighborList(sort_by_distance=bool(rng_sort)))
    rng_sort = rng.random() < 0.5
    ref = go(1)
    for n in NT[1:]:
        assert_same(t, go(n), ref, f"query with {n} threads")


@contract(20)
def threads_box(t, rng):
    b = random_box(freud, rng)
    n = int(rng.integers(1, 3000))
    p = random_points(b, rng, n) * f32(rng.choice([1, 3]))
    img = rng.integers(-3, 4, (n, 3)).astype(np.int32)
    t.inp(box=box_dict(b), n=n)

    def go(k):
        with freud.parallel.NumThreads(k):
            return dict(wrap=b.wrap(p), abs=b.make_absolute(p), frac=b.make_fractional(p), img=b.get_images(p), unwrap=b.unwrap(p, img),
                        d=b.compute_distances(p, p[::-1]), all=b.compute_all_distances(p[:40], p[:50]), com=b.center_of_mass(p), c=b.contains(p),
                        ctr=b.center(p))
    ref = go(1)
    for k in NT[1:]:
        assert_same(t, go(k), ref, f"box operations with {k} threads", exact=False)


@contract(10)
def number_of_threads(t, rng):
    n = int(rng.integers(1, 9))
    t.inp(n=n)
    a = freud.parallel.get_num_threads()
    with freud.parallel.NumThreads(n):
        t.check(freud.parallel.get_num_threads() == n, "get_num_threads in a context")
        with freud.parallel.NumThreads(1):
            t.check(freud.parallel.get_num_threads() == 1, "nested")
        t.check(freud.parallel.get_num_threads() == n, "the context does not restore the number")
    t.check(freud.parallel.get_num_threads() == a, "the context does not restore the number")
