"""P25: access before compute, input handling, and stability of returned arrays."""
import copy
import numpy as np
import freud
from rt import *
from computes import REG, REG0, Frame, assert_same, nl_fields

RESULTS = {
    "Cluster": ['cluster_idx', 'cluster_keys', 'num_clusters'],
    "ClusterProperties": ['centers', 'centers_of_mass', 'cluster_masses', 'gyrations', 'inertia_tensors', 'radii_of_gyration', 'sizes'],
    "CorrelationFunction": ['bin_counts', 'box', 'correlation'],
    "GaussianDensity": ['box', 'density'],
    "SphereVoxelization": ['box', 'voxels'],
    "LocalDensity": ['box', 'density', 'num_neighbors'],
    "RDF": ['bin_counts', 'box', 'n_r', 'rdf'],
    "StaticStructureFactorDebye": ['S_k', 'min_valid_k'],
    "AngularSeparationNeighbor": ['angles', 'nlist'],
    "AngularSeparationGlobal": ['angles'],
    "BondOrder": ['bin_counts', 'bond_order', 'box'],
    "LocalBondProjection": ['nlist', 'normed_projections', 'projections'],
    "Interface": ['point_count', 'point_ids', 'query_point_count', 'query_point_ids'],
    "PeriodicBuffer": ['buffer_box', 'buffer_ids', 'buffer_points'],
    "FilterSANN": ['filtered_nlist', 'unfiltered_nlist'],
    "FilterRAD": ['filtered_nlist', 'unfiltered_nlist'],
    "Cubatic": ['cubatic_tensor', 'global_tensor', 'order', 'orientation', 'particle_order'],
    "Hexatic": ['particle_order'],
    "RotationalAutocorrelation": ['order', 'particle_order'],
    "PMFTR12": ['_pcf', 'bin_counts', 'box', 'pmft'],
    "PMFTXYT": ['_pcf', 'bin_counts', 'box', 'pmft'],
    "PMFTXY": ['_pcf', 'bin_counts', 'box', 'pmft'],
    "PMFTXYZ": ['_pcf', 'bin_counts', 'box', 'pmft'],
}
PARRAYS = ("p", "q", "ang", "qang", "ori", "qori", "val", "qval", "equiv", "proj", "mass", "keys")
NOPOINTS = ("AngularSeparationGlobal", "RotationalAutocorrelation", "Cubatic")


def variant(a, kind, rng):
    """the same values in another container or layout"""
    if a is None:
        return None
    if kind == "f64":
        return a.astype(np.complex128 if a.dtype.kind == "c" else np.float64 if a.dtype.kind == "f" else np.int64)
    if kind == "list":
        return a.tolist()
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
        b[:] = 7
        b[::2] = a
        return b[::2]
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    if kind == "column":
        if a.ndim != 2:
            return a
        b = np.full((a.shape[0], a.shape[1] + 2), 5, a.dtype)
        b[:, 1:-1] = a
        return b[:, 1:-1]
    if kind == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == "big":
        return a.astype(a.dtype.newbyteorder(">"))
    raise ValueError(kind)


KINDS = ["f64", "list", "fortran", "strided", "reversed", "column", "readonly", "big"]


def prep(c, rng):
    f = c.frame(rng)
    # values exactly representable in single precision, whole-number keys
    f.val, f.qval = f.val.astype(np.complex64).astype(np.complex128), f.qval.astype(np.complex64).astype(np.complex128)
    args = f.args(rng, kind="ball") if c.pair else None
    return f, args


def layouts_of(c):
    def layouts(t, rng):
        f, args = prep(c, rng)
        seed = int(rng.integers(1 << 30))
        kind = str(rng.choice(KINDS))
        names = [n for n in PARRAYS if rng.random() < 0.7]
        t.inp(**f.desc(), args=args, cls=c.name, layout=kind, arrays=names)
        o = c.make(np.random.default_rng(seed))
        c.run(o, f, args)
        ref = c.res(o)
        g = copy.copy(f)
        for n in names:
            if n == "keys" and c.name == "ClusterProperties" and kind == "list":
                continue
            setattr(g, n, variant(getattr(f, n), kind, rng))
        before = {n: copy.deepcopy(getattr(g, n)) for n in PARRAYS}
        o = c.make(np.random.default_rng(seed))
        c.run(o, g, args)
        assert_same(t, c.res(o), ref, f"{c.name} with {kind} arrays", exact=False, rtol=1e-5, atol=1e-5)
        for n in PARRAYS:
            a, b = getattr(g, n), before[n]
            if b is None:
                continue
            t.check(type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b)), f"{c.name} modifies its input {n}", (a, b))
    layouts.__name__ = "layouts_" + c.name
    return layouts


def before_of(c):
    def before(t, rng):
        t.inp(cls=c.name)
        o = c.make(rng)
        for n in RESULTS[c.name]:
            t.raises(lambda: getattr(o, n), f"{c.name}.{n} can be read before compute", AttributeError)
        if hasattr(type(o), "plot"):
            t.raises(lambda: o.plot(), f"{c.name}.plot works before compute", AttributeError)
        f, args = prep(c, rng)
        c.run(o, f, args)
        for n in RESULTS[c.name]:
            getattr(o, n)
    before.__name__ = "before_" + c.name
    return before


def shapes_of(c):
    def shapes(t, rng):
        f, args = prep(c, rng)
        if c.query and f.q is None:
            f.q = f.p
        t.inp(**f.desc(), args=args, cls=c.name)

        def bad(n, a, what):
            g = copy.copy(f)
            setattr(g, n, a)
            t.raises(lambda: c.run(c.make(rng), g, args), f"{c.name}: {n} {what} is accepted")
        if c.name not in NOPOINTS:
            bad("p", np.zeros((f.n, 2), np.float32), "with 2 columns")
            bad("p", np.zeros((f.n, 4), np.float32), "with 4 columns")
            bad("p", np.zeros((f.n, 3, 1), np.float32), "with 3 axes")
            if c.query:
                bad("q", np.zeros((f.nq, 2), np.float32), "with 2 columns")
                bad("q", np.zeros((f.nq, 3, 1), np.float32), "with 3 axes")
        for n in c.inputs:
            a = np.asarray(getattr(f, n))
            if a.ndim == 2:
                bad(n, a[:, :-1], "with a missing column")
                bad(n, np.concatenate([a, a[:, :1]], 1), "with another column")
            if n in ("equiv", "proj") or (n == "keys" and c.name == "Cluster") or c.name == "AngularSeparationGlobal":
                continue
            if c.name == "Cubatic":
                continue
            bad(n, np.concatenate([a, a[:1]]), "with one more entry")
            if len(a) > 1:
                bad(n, a[:-1], "with one entry less")
    shapes.__name__ = "shapes_" + c.name
    return shapes


def keep_of(c):
    def stable(t, rng):
        f, args = prep(c, rng)
        g = copy.copy(f) if rng.random() < 0.5 else None
        if g is None:
            g = c.frame(rng, dim=2 if f.box.is2D else 3)
        gargs = g.args(rng, kind="ball") if c.pair else None
        t.inp(**f.desc(), cls=c.name)
        o = c.make(rng)
        c.run(o, f, args)
        names = [n for n in RESULTS[c.name] if isinstance(getattr(o, n), np.ndarray)]
        held = {n: getattr(o, n) for n in names}
        nls = {n: getattr(o, n) for n in RESULTS[c.name] if isinstance(getattr(o, n), freud.locality.NeighborList)}
        held.update({n + "." + k: getattr(v, k) for n, v in nls.items() for k in ("distances", "vectors", "weights")})
        was = {k: v.copy() for k, v in held.items()}
        wasn = {n: nl_fields(v) for n, v in nls.items()}
        c.run(o, g, gargs)
        for n in RESULTS[c.name]:
            getattr(o, n)
        for k in held:
            t.same(held[k], was[k], f"{c.name}.{k} returned earlier is changed by computing again")
        for n, v in nls.items():
            assert_same(t, nl_fields(v), wasn[n], f"{c.name}.{n} returned earlier is changed by computing again")
        del o
        for k in held:
            t.same(held[k], was[k], f"{c.name}.{k} does not survive its compute object")
    stable.__name__ = "stable_" + c.name
    return stable


for _c in REG + REG0:
    contract(5)(layouts_of(_c))
    contract(1)(before_of(_c))
    contract(2)(shapes_of(_c))
    contract(3)(keep_of(_c))


@contract(30)
def queries(t, rng):
    """locality objects copy their points and leave inputs alone"""
    f = Frame(rng, same=False)
    args = f.args(rng, kind="ball")
    kind = str(rng.choice(KINDS))
    t.inp(**f.desc(), args=args, layout=kind)
    p, q = variant(f.p, kind, rng), variant(f.q, kind, rng)
    keep = copy.deepcopy(p), copy.deepcopy(q)
    for E in (freud.locality.AABBQuery, lambda b, x: freud.locality.LinkCell(b, x, 0.5 * f.limit), freud.locality.CellQuery, freud.locality._RawPoints):
        a = E(f.box, f.p)
        b = E(f.box, p)
        want = nl_fields(a.query(f.q, args).toNeighborList(sort_by_distance=True))
        assert_same(t, nl_fields(b.query(q, args).toNeighborList(sort_by_distance=True)), want, kind + " points")
        t.same(np.asarray(p), np.asarray(keep[0]), "points modified")
        t.same(np.asarray(q), np.asarray(keep[1]), "query points modified")
        m = f.p.copy()
        c = E(f.box, m)
        m[:] = 0
        assert_same(t, nl_fields(c.query(f.q, args).toNeighborList(sort_by_distance=True)), want, "points changed after construction")
        t.raises(lambda: E(f.box, np.zeros((4, 2))), "points with 2 columns accepted")
        t.raises(lambda: a.query(np.zeros((4, 2)), args), "query points with 2 columns accepted")


@contract(30)
def box_arrays(t, rng):
    b = random_box(freud, rng)
    p = random_points(b, rng, int(rng.integers(2, 9))) * 3
    img = rng.integers(-2, 3, (len(p), 3)).astype(np.int32)
    kind = str(rng.choice(KINDS))
    x, im = variant(p, kind, rng), variant(img, kind, rng)
    t.inp(box=box_dict(b), points=p, layout=kind)
    k = copy.deepcopy(x)
    for n in ("wrap", "make_absolute", "make_fractional", "get_images", "contains", "center_of_mass", "center"):
        t.same(getattr(b, n)(x), getattr(b, n)(p), f"Box.{n} with {kind} arrays")
        t.same(np.asarray(x), np.asarray(k), f"Box.{n} modifies its input")
    t.same(b.unwrap(x, im), b.unwrap(p, img), f"Box.unwrap with {kind} arrays")
    t.same(b.compute_distances(x, x), b.compute_distances(p, p), "Box.compute_distances")
    t.same(b.compute_all_distances(x, x), b.compute_all_distances(p, p), "Box.compute_all_distances")
    t.same(np.asarray(x), np.asarray(k), "a Box method modifies its input")
    t.raises(lambda: b.wrap(np.zeros((3, 2))), "vectors with 2 columns accepted")
    t.raises(lambda: b.compute_distances(p, np.concatenate([p, p])), "distances between arrays of other lengths accepted")
    t.raises(lambda: b.unwrap(p, np.concatenate([img, img, img])), "images of another length accepted")
    o = np.zeros_like(p)
    r = b.wrap(p, out=o)
    t.check(r is o or np.shares_memory(r, o), "out is not used")
    t.same(o, b.wrap(p), "out holds another result")


@contract(10)
def msd(t, rng):
    o = freud.msd.MSD()
    t.inp(cls="MSD")
    t.raises(lambda: o.msd, "MSD.msd can be read before compute", AttributeError)
    t.raises(lambda: o.particle_msd, "MSD.particle_msd can be read before compute", AttributeError)
    p = f32(rng.normal(size=(5, 3, 3)))
    a = o.compute(p).particle_msd
    k = a.copy()
    for kind in KINDS:
        x = variant(p, kind, rng) if kind != "column" else p
        t.close(freud.msd.MSD().compute(x).particle_msd, k, "MSD with " + kind, atol=1e-5)
    o.compute(p * 2)
    t.same(a, k, "an array returned earlier is changed")
    t.raises(lambda: freud.msd.MSD().compute(np.zeros((5, 3))), "positions with 2 axes accepted")
    t.raises(lambda: freud.msd.MSD().compute(np.zeros((5, 3, 2))), "positions with 2 columns accepted")
