"""Registry of freud's compute classes with generators of frames (inputs),
used by the contracts that hold for every class."""
import numpy as np
import freud
from rt import *

IDQ = np.array([[1, 0, 0, 0], [-1, 0, 0, 0]], np.float32)


class Frame:
    """one call's inputs: box, points, query points (None = points) and per-point data"""
    def __init__(self, rng, dim=None, same=None, n=None, m=None, L=(4.0, 8.0), box=None):
        self.box = b = box if box is not None else random_box(freud, rng, dim=dim, L=L)
        n = n or int(rng.integers(2, 20))
        self.p = random_points(b, rng, n)
        if same is None:
            same = rng.random() < 0.4
        self.q = None if same else random_points(b, rng, m or int(rng.integers(1, 16)))
        nq = n if self.q is None else len(self.q)
        self.n, self.nq = n, nq
        self.ang, self.qang = f32(rng.uniform(-4, 7, n)), f32(rng.uniform(-4, 7, nq))
        self.ori, self.qori = quat_random(rng, n), quat_random(rng, nq)
        self.val = rng.normal(size=n) + 1j * rng.normal(size=n)
        self.qval = rng.normal(size=nq) + 1j * rng.normal(size=nq)
        k = int(rng.integers(0, 3))
        e = quat_random(rng, k)
        self.equiv = f32(np.concatenate([IDQ, e, -e]))
        self.proj = f32(rng.normal(size=(int(rng.integers(1, 4)), 3)))
        self.mass = f32(rng.uniform(0.5, 3, n))
        self.keys = rng.integers(0, 50, n).astype(np.uint32)
        self.rad, self.qrad = f32(rng.uniform(0.3, 1.5, n)), f32(rng.uniform(0.3, 1.5, nq))
        self.limit = float(plane_distance(b).min()) / 2

    def args(self, rng, kind=None):
        """query arguments"""
        kind = kind or ("ball" if rng.random() < 0.6 else "nearest")
        ex = self.q is None
        if kind == "ball":
            d = dict(mode="ball", r_max=float(rng.uniform(0.3, 0.97)) * self.limit, exclude_ii=ex)
            if rng.random() < 0.3:
                d["r_min"] = d["r_max"] * float(rng.uniform(0.1, 0.6))
        else:
            d = dict(mode="nearest", num_neighbors=int(rng.integers(1, min(7, self.n + 2))), exclude_ii=ex)
            if rng.random() < 0.3:
                d["r_max"] = float(rng.uniform(0.3, 0.97)) * self.limit
        return d

    def qp(self):
        return self.p if self.q is None else self.q

    def query(self, args):
        return freud.locality.AABBQuery(self.box, self.p).query(self.qp(), args)

    def nlist(self, args):
        return self.query(args).toNeighborList()

    def desc(self):
        return dict(box=box_dict(self.box), points=self.p, query_points="points" if self.q is None else self.q)


def nl_fields(nl):
    return dict(idx=np.array(nl[:]).reshape(-1, 2), distances=np.array(nl.distances), vectors=np.array(nl.vectors),
                weights=np.array(nl.weights), n=np.array([nl.num_query_points, nl.num_points]))


class C:
    """name, dims, factory(rng) -> object, run(obj, frame, neighbors[, reset]), results(obj) -> dict"""
    def __init__(self, name, dims, make, run, res, acc=False, query=True, nbonds=False, exact=(), inputs=(), pair=True):
        self.name, self.dims, self.make, self._run, self.res = name, dims, make, run, res
        self.acc, self.query, self.nbonds, self.exact, self.inputs, self.pair = acc, query, nbonds, exact, inputs, pair

    def frame(self, rng, **kw):
        if not self.query:
            kw["same"] = True
        if len(self.dims) == 1:
            kw["dim"] = self.dims[0]
        return Frame(rng, **kw)

    def run(self, o, fr, neighbors, reset=True):
        if self.acc:
            return self._run(o, fr, neighbors, dict(reset=reset))
        return self._run(o, fr, neighbors, {})


def _get(*names):
    def f(o):
        return {n: np.array(getattr(o, n)) for n in names}
    return f


def sysof(f):
    return (f.box, f.p)


def _rdf(rng):
    r = float(rng.uniform(0.5, 4))
    return freud.density.RDF(int(rng.integers(1, 12)), r, r * float(rng.choice([0, 0.3])),
                             normalization_mode=str(rng.choice(["exact", "finite_size"])))


def _bo(rng):
    return freud.environment.BondOrder((int(rng.integers(2, 9)), int(rng.integers(2, 9))), mode=str(rng.choice(["bod", "lbod", "obcd", "oocd"])))


def _u(rng, a, b):
    return float(rng.uniform(a, b))


def _i(rng, a, b):
    return int(rng.integers(a, b))


REG = [
    C("RDF", (2, 3), _rdf, lambda o, f, n, k: o.compute(sysof(f), query_points=f.q, neighbors=n, **k),
      _get("bin_counts", "rdf", "n_r"), acc=True, exact=("bin_counts",)),
    C("CorrelationFunction", (2, 3), lambda rng: freud.density.CorrelationFunction(_i(rng, 1, 10), _u(rng, 0.5, 4)),
      lambda o, f, n, k: o.compute(sysof(f), f.val, query_points=f.q, query_values=f.qval, neighbors=n, **k),
      _get("bin_counts", "correlation"), acc=True, exact=("bin_counts",), inputs=("val", "qval")),
    C("BondOrder", (2, 3), _bo,
      lambda o, f, n, k: o.compute(sysof(f), f.ori, query_points=f.q, query_orientations=f.qori, neighbors=n, **k),
      _get("bin_counts", "bond_order"), acc=True, exact=("bin_counts",), inputs=("ori", "qori")),
    C("PMFTR12", (2,), lambda rng: freud.pmft.PMFTR12(_u(rng, 1, 4), (_i(rng, 1, 6), _i(rng, 1, 6), _i(rng, 1, 6))),
      lambda o, f, n, k: o.compute(sysof(f), f.ang, query_points=f.q, query_orientations=f.qang, neighbors=n, **k),
      _get("bin_counts", "_pcf", "pmft"), acc=True, exact=("bin_counts",), inputs=("ang", "qang")),
    C("PMFTXYT", (2,), lambda rng: freud.pmft.PMFTXYT(_u(rng, 1, 4), _u(rng, 1, 4), (_i(rng, 1, 6), _i(rng, 1, 6), _i(rng, 1, 6))),
      lambda o, f, n, k: o.compute(sysof(f), f.ang, query_points=f.q, query_orientations=f.qang, neighbors=n, **k),
      _get("bin_counts", "_pcf", "pmft"), acc=True, exact=("bin_counts",), inputs=("ang", "qang")),
    C("PMFTXY", (2,), lambda rng: freud.pmft.PMFTXY(_u(rng, 1, 4), _u(rng, 1, 4), (_i(rng, 2, 7), _i(rng, 2, 7))),
      lambda o, f, n, k: o.compute(sysof(f), f.qang, query_points=f.q, neighbors=n, **k),
      _get("bin_counts", "_pcf", "pmft"), acc=True, exact=("bin_counts",), inputs=("qang",)),
    C("PMFTXYZ", (3,), lambda rng: freud.pmft.PMFTXYZ(_u(rng, 1, 4), _u(rng, 1, 4), _u(rng, 1, 4), (_i(rng, 1, 6), _i(rng, 1, 6), _i(rng, 1, 6))),
      lambda o, f, n, k: o.compute(sysof(f), f.qori, query_points=f.q, equiv_orientations=f.equiv, neighbors=n, **k),
      _get("bin_counts", "_pcf", "pmft"), acc=True, exact=("bin_counts",), inputs=("qori", "equiv")),
    C("LocalDensity", (2, 3), lambda rng: freud.density.LocalDensity(_u(rng, 0.5, 4), float(rng.choice([0.0, 0.3, 1.0]))),
      lambda o, f, n, k: o.compute(sysof(f), query_points=f.q, neighbors=n), _get("density", "num_neighbors")),
    C("AngularSeparationNeighbor", (2, 3), lambda rng: freud.environment.AngularSeparationNeighbor(),
      lambda o, f, n, k: o.compute(sysof(f), f.ori, query_points=f.q, query_orientations=f.qori, equiv_orientations=f.equiv, neighbors=n),
      lambda o: dict(nl_fields(o.nlist), angles=np.array(o.angles)), nbonds=True, inputs=("ori", "qori", "equiv")),
    C("LocalBondProjection", (2, 3), lambda rng: freud.environment.LocalBondProjection(),
      lambda o, f, n, k: o.compute(sysof(f), f.ori, f.proj, query_points=f.q, equiv_orientations=f.equiv, neighbors=n),
      lambda o: dict(nl_fields(o.nlist), p=np.array(o.projections), np=np.array(o.normed_projections)), nbonds=True, inputs=("ori", "proj", "equiv")),
    C("Hexatic", (2,), lambda rng: freud.order.Hexatic(_i(rng, 1, 9), bool(rng.random() < 0.5)),
      lambda o, f, n, k: o.compute(sysof(f), neighbors=n), _get("particle_order"), query=False),
    C("Cluster", (2, 3), lambda rng: freud.cluster.Cluster(),
      lambda o, f, n, k: o.compute(sysof(f), keys=f.keys, neighbors=n),
      lambda o: dict(idx=np.array(o.cluster_idx), n=np.array(o.num_clusters), keys=np.array([k for c in o.cluster_keys for k in list(c) + [-1]])),
      query=False, inputs=("keys",)),
    C("Interface", (2, 3), lambda rng: freud.interface.Interface(),
      lambda o, f, n, k: o.compute(sysof(f), f.qp(), neighbors=n), _get("point_ids", "query_point_ids", "point_count", "query_point_count")),
    C("FilterSANN", (2, 3), lambda rng: freud.locality.FilterSANN(allow_incomplete_shell=True),
      lambda o, f, n, k: o.compute(sysof(f), query_points=f.q, neighbors=n),
      lambda o: nl_fields(o.filtered_nlist), nbonds=True),
    C("FilterRAD", (2, 3), lambda rng: freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=bool(rng.random() < 0.5)),
      lambda o, f, n, k: o.compute(sysof(f), query_points=f.q, neighbors=n),
      lambda o: nl_fields(o.filtered_nlist), nbonds=True),
]

# computes without neighbours: run(obj, frame)
REG0 = [
    C("GaussianDensity", (2, 3), lambda rng: freud.density.GaussianDensity(_i(rng, 2, 9), _u(rng, 0.3, 2), _u(rng, 0.2, 1)),
      lambda o, f, n, k: o.compute(sysof(f), values=f.mass), _get("density"), query=False, inputs=("mass",), pair=False),
    C("SphereVoxelization", (2, 3), lambda rng: freud.density.SphereVoxelization(_i(rng, 2, 9), _u(rng, 0.3, 2)),
      lambda o, f, n, k: o.compute(sysof(f)), _get("voxels"), query=False, pair=False),
    C("ClusterProperties", (2, 3), lambda rng: freud.cluster.ClusterProperties(),
      lambda o, f, n, k: o.compute(sysof(f), f.keys % 3, f.mass),
      lambda o: {n: np.array(getattr(o, n)) for n in ("centers", "centers_of_mass", "sizes", "cluster_masses", "gyrations", "inertia_tensors")}
      , query=False, inputs=("mass", "keys"), pair=False),
    C("PeriodicBuffer", (2, 3), lambda rng: freud.locality.PeriodicBuffer(),
      lambda o, f, n, k: o.compute(sysof(f), buffer=0.4 * f.limit, images=False, include_input_points=True),
      _get("buffer_points", "buffer_ids"), query=False, pair=False),
    C("AngularSeparationGlobal", (3,), lambda rng: freud.environment.AngularSeparationGlobal(),
      lambda o, f, n, k: o.compute(f.qori, f.ori, f.equiv), _get("angles"), inputs=("ori", "qori", "equiv"), pair=False),
    C("RotationalAutocorrelation", (3,), lambda rng: freud.order.RotationalAutocorrelation(2 * _i(rng, 0, 4)),
      lambda o, f, n, k: o.compute(f.ori, f.qori), _get("order", "particle_order"), query=False, inputs=("ori", "qori"), pair=False),
    C("Cubatic", (3,), lambda rng: freud.order.Cubatic(2.0, 0.5, 0.7, n_replicates=4, seed=_i(rng, 0, 100)),
      lambda o, f, n, k: o.compute(f.ori), _get("order", "particle_order", "global_tensor", "cubatic_tensor", "orientation"), query=False, inputs=("ori",), pair=False),
    C("StaticStructureFactorDebye", (2, 3), lambda rng: freud.diffraction.StaticStructureFactorDebye(_i(rng, 2, 8), _u(rng, 2, 9), _u(rng, 0, 1)),
      lambda o, f, n, k: o.compute(sysof(f), query_points=f.q, N_total=None if f.q is None else f.n + f.nq, **k),
      _get("S_k", "k_values", "min_valid_k"), acc=True, pair=False),
]


def permute(f, perm):
    """the frame with its points relabelled"""
    import copy
    g = copy.copy(f)
    for n in ("p", "ang", "ori", "val", "mass", "keys", "rad"):
        setattr(g, n, getattr(f, n)[perm])
    if f.q is None:
        for n in ("qang", "qori", "qval", "qrad"):
            setattr(g, n, getattr(f, n)[perm])
    return g


def assert_same(t, a, b, what, exact=True, rtol=1e-4, atol=1e-5):
    t.check(set(a) == set(b), what + ": different results")
    for k in a:
        if exact:
            t.same(a[k], b[k], f"{what}: {k}")
        else:
            t.close(a[k], b[k], f"{what}: {k}", rtol=rtol, atol=atol)


def reuse_of(name):
    """contract: an object used before on another system (of possibly another dimension) gives
    the results of a fresh one"""
    c = next(x for x in REG + REG0 if x.name == name)

    def reuse(t, rng):
        s = int(rng.integers(1 << 30))
        fix = {} if name not in ("GaussianDensity", "SphereVoxelization") else dict(dim=int(rng.choice([2, 3])))
        frames = [c.frame(rng, **fix) for _ in range(int(rng.integers(2, 4)))]
        nb = [f.args(rng) for f in frames]
        read = bool(rng.random() < 0.5)
        t.inp(compute=name, frames=[f.desc() for f in frames], neighbors=nb)
        a, b = c.make(np.random.default_rng(s)), c.make(np.random.default_rng(s))
        for f, n in zip(frames[:-1], nb):
            try:
                c.run(a, f, n)
                if read:
                    c.res(a)
            except RuntimeError:
                pass
        try:
            c.run(b, frames[-1], nb[-1])
        except RuntimeError:
            return
        c.run(a, frames[-1], nb[-1])
        assert_same(t, c.res(a), c.res(b), name + " differs from a fresh object's after earlier use", exact=False, rtol=1e-3, atol=1e-4)
    reuse.__name__ = "reuse_" + name
    return reuse
