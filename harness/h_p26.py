"""P26: unit cells, random systems and interfaces."""
import numpy as np
import freud
from rt import *
from computes import Frame, nl_fields

CELLS = dict(
    sc=(3, [[0, 0, 0]], np.eye(3)),
    bcc=(3, [[.5, .5, .5], [0, 0, 0]], np.eye(3)),
    fcc=(3, [[.5, .5, 0], [.5, 0, .5], [0, .5, .5], [0, 0, 0]], np.eye(3)),
    hcp=(3, [[1 / 3, 2 / 3, 1 / 4], [2 / 3, 1 / 3, 3 / 4]], np.array([[1, -.5, 0], [0, np.sqrt(3) / 2, 0], [0, 0, np.sqrt(8 / 3)]])),
    square=(2, [[0, 0, 0]], np.diag([1, 1, 0])),
    hex=(2, [[0, 0, 0], [.5, .5, 0]], np.diag([1, np.sqrt(3), 0])),
    graphene=(2, [[0, 0, 0], [0, 1 / 3, 0], [.5, 5 / 6, 0], [.5, .5, 0]], np.diag([1, np.sqrt(3), 0])),
)


def cell(rng):
    if rng.random() < 0.5:
        return getattr(freud.data.UnitCell, str(rng.choice(sorted(CELLS))))()
    b = random_box(freud, rng, L=(0.7, 3))
    f = rng.uniform(0.02, 0.98, (int(rng.integers(1, 5)), 3))
    if b.is2D:
        f[:, 2] = 0
    return freud.data.UnitCell(b, f)


@contract(60)
def constructors(t, rng):
    name = sorted(CELLS)[int(rng.integers(len(CELLS)))]
    dim, basis, m = CELLS[name]
    u = getattr(freud.data.UnitCell, name)()
    t.inp(cell=name)
    t.check(u.dimensions == dim, "dimensions", u.dimensions)
    t.close(np.sort(np.asarray(u.basis_positions, float), 0), np.sort(np.array(basis, float), 0), "basis positions", atol=1e-6)
    t.close(u.lattice_vectors, m, "lattice vectors", atol=1e-5)
    t.close(np.stack([u.a1, u.a2, u.a3], 1), m, "a1, a2, a3", atol=1e-5)
    a = float(rng.uniform(0.4, 3))
    r = freud.data.UnitCell.rectangular(a, centered=bool(rng.random() < 0.5))
    t.close(r.lattice_vectors, np.diag([1, a, 0]), "rectangular", atol=1e-5)
    th = float(rng.uniform(20, 160))
    o = freud.data.UnitCell.oblique(a, th)
    t.close(o.lattice_vectors, [[1, a * np.cos(np.deg2rad(th)), 0], [0, a * np.sin(np.deg2rad(th)), 0], [0, 0, 0]], "oblique", atol=1e-5)


@contract(160)
def generate(t, rng):
    u = cell(rng)
    two = u.box.is2D
    N = [int(x) for x in rng.integers(1, 4, 3)]
    if two:
        N[2] = 1
    num = tuple(N)
    if rng.random() < 0.3:
        N = [N[0]] * (2 if two else 3) + ([1] if two else [])
        num = N[0]
    s = float(rng.choice([1.0, rng.uniform(0.3, 4)]))
    t.inp(box=box_dict(u.box), basis=u.basis_positions, num_replicas=num, scale=s)
    box, pts = u.generate_system(num, s)
    m = matrix(u.box) * s
    want = m * np.array(N)[None, :]
    t.close(matrix(box), want, "the box is not that of n cells", rtol=1e-5, atol=1e-5)
    t.check(bool(box.is2D) == bool(two), "dimensionality", box)
    nb, nc = len(u.basis_positions), N[0] * N[1] * N[2]
    pts = np.asarray(pts, float)
    t.check(pts.shape == (nb * nc, 3), "not one point per basis position and cell", pts.shape)
    fr = frac(box, pts)
    t.check(np.all(np.abs(fr) <= 0.5 + 1e-4), "points are not wrapped into the box", fr)
    # in units of cells: basis position + integers, up to one common translation
    c = fr * np.array(N)
    nd = 2 if two else 3
    base = np.repeat(np.asarray(u.basis_positions, float), nc, axis=0)
    off = c - base
    d = off - off[0]
    t.close(d[:, :nd], np.round(d[:, :nd]), "a point is not its basis position in some cell", atol=5e-3)
    k = np.round(d[:, :nd]).astype(int) % np.array(N)[:nd]
    for b in range(nb):
        t.check(len({tuple(x) for x in k[b * nc:(b + 1) * nc]}) == nc, "a cell is filled twice", k)
    if max(N) == 1 or (u.box.xy == 0 and u.box.xz == 0 and u.box.yz == 0):
        # no tilt: the tiling starts at the corner of the box
        z = c[:, :nd] + np.array(N)[:nd] / 2 - base[:, :nd]
        t.close(z, np.round(z), "cells are not aligned with the box", atol=5e-3)


@contract(40)
def noise(t, rng):
    u = cell(rng)
    n = 4 if not u.box.is2D else 10
    sg = float(rng.uniform(0.001, 0.02))
    seed = int(rng.integers(1 << 30))
    t.inp(box=box_dict(u.box), sigma=sg, seed=seed)
    s = float(rng.uniform(0.5, 2))
    b0, p0 = u.generate_system(n, s)
    b1, p1 = u.generate_system(n, s, sigma_noise=sg, seed=seed)
    b2, p2 = u.generate_system(n, s, sigma_noise=sg, seed=seed)
    t.same(p1, p2, "not reproducible for a seed")
    t.check(b1 == b0 == b2, "the noise changes the box")
    fr = frac(b1, p1)
    t.check(np.all(np.abs(fr) <= 0.5 + 1e-4), "noisy points are not wrapped into the box")
    d = wrap(b0, np.asarray(p1, float) - p0)
    nd = 2 if u.box.is2D else 3
    for i in range(nd):
        t.check(0.55 * sg < d[:, i].std() < 1.5 * sg and abs(d[:, i].mean()) < 0.6 * sg, "noise has another width", (i, d[:, i].std(), sg))
    if nd == 2:
        t.check(np.abs(d[:, 2]).max() == 0, "noise out of the plane")
    p3 = u.generate_system(n, s, sigma_noise=sg, seed=seed + 1)[1]
    t.check(not np.array_equal(p3, p1), "the seed has no effect")


@contract(10)
def replica_arguments(t, rng):
    u = cell(rng)
    t.inp(box=box_dict(u.box))
    t.raises(lambda: u.generate_system(0), "zero replicas accepted", ValueError)
    t.raises(lambda: u.generate_system((1, -1, 1)), "negative replicas accepted", ValueError)
    t.raises(lambda: u.generate_system((1, 1.5, 1)), "fractional replicas accepted", ValueError)
    if u.box.is2D:
        t.raises(lambda: u.generate_system((1, 1, 2)), "replicas along z of a 2D cell accepted", ValueError)


@contract(60)
def random_system(t, rng):
    L, n, two, seed = float(rng.uniform(0.5, 20)), int(rng.integers(1, 60)), bool(rng.random() < 0.5), int(rng.integers(1 << 30))
    t.inp(L=L, n=n, is2D=two, seed=seed)
    b, p = freud.data.make_random_system(L, n, two, seed)
    b2, p2 = freud.data.make_random_system(L, n, two, seed)
    t.same(p, p2, "not reproducible for a seed")
    t.check(b == b2, "boxes differ")
    t.check(p.shape == (n, 3) and bool(b.is2D) == two, "shape or dimension", (p.shape, b))
    t.close([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz], [L, L, 0 if two else L, 0, 0, 0], "box size", rtol=1e-5)
    nd = 2 if two else 3
    t.check(np.all(np.abs(p[:, :nd]) <= L / 2 * (1 + 1e-5)), "points outside of the box", p)
    if two:
        t.check(np.all(p[:, 2] == 0), "points out of the plane")
    if n > 30:
        q = p[:, :nd] / L
        t.check(np.all(q.max(0) > 0.15) and np.all(q.min(0) < -0.15) and np.all(np.abs(q.mean(0)) < 0.3), "points do not fill the box", q)


@contract(80)
def interface(t, rng):
    f = Frame(rng, same=False, n=int(rng.integers(1, 40)), m=int(rng.integers(1, 40)))
    r = float(rng.uniform(0.2, 0.95)) * f.limit
    t.inp(**f.desc(), r_max=r)
    sure, maybe, _, _ = brute_pairs(f.box, f.q, f.p, r)
    o = freud.interface.Interface().compute((f.box, f.p), f.q, neighbors=dict(r_max=r))
    if rng.random() < 0.5:
        o.compute((f.box, f.p), f.q, neighbors=freud.locality.AABBQuery(f.box, f.p).query(f.q, dict(r_max=r)).toNeighborList())
    if (sure != maybe).any():
        return
    pid, qid = np.nonzero(sure.any(0))[0], np.nonzero(sure.any(1))[0]
    t.same(np.sort(np.asarray(o.point_ids).astype(int)), pid, "point_ids are not the points with a neighbour")
    t.same(np.sort(np.asarray(o.query_point_ids).astype(int)), qid, "query_point_ids are not the query points with a neighbour")
    t.check((o.point_count, o.query_point_count) == (len(pid), len(qid)), "counts", (o.point_count, o.query_point_count))
