import numpy as np
import freud
from rt import *


def circ_mean(box, p, m):
    f = frac(box, p) + 0.5
    a = 2 * np.pi * f
    z = (np.exp(1j * a) * m[:, None]).sum(0)
    return (np.angle(z) % (2 * np.pi)) / (2 * np.pi) - 0.5, np.abs(z) / m.sum()


@contract(350)
def moments(t, rng):
    b = random_box(freud, rng)
    k = int(rng.integers(1, 5))
    n = int(rng.integers(k, 25))
    idx = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    rng.shuffle(idx)
    # each cluster is compact, possibly across the box faces
    c = rng.uniform(-0.5, 0.5, (k, 3))
    p = f32(wrap(b, unfrac(b, c[idx] + rng.uniform(-0.12, 0.12, (n, 3)))))
    if b.is2D:
        p[:, 2] = 0
    mass = f32(rng.uniform(0.3, 4, n)) if rng.random() < 0.7 else None
    if rng.random() < 0.1:
        idx = np.where(idx == k - 1, k + 2, idx)  # empty clusters in between
    t.inp(box=box_dict(b), points=p, cluster_idx=idx, masses=mass)
    o = freud.cluster.ClusterProperties().compute((b, p), idx, mass)
    K = idx.max() + 1
    m = np.ones(n) if mass is None else mass.astype(float)
    t.same(np.asarray(o.sizes).astype(int), np.bincount(idx, minlength=K), "sizes")
    t.close(o.cluster_masses, np.bincount(idx, weights=m, minlength=K), "cluster masses", rtol=1e-5, atol=1e-5)
    for j in range(K):
        s = idx == j
        if not s.any():
            continue
        P = p[s].astype(float)
        for nm, w in (("centers", np.ones(s.sum())), ("centers_of_mass", m[s])):
            fc, conf = circ_mean(b, P, w)
            d = wrap(b, np.asarray(getattr(o, nm))[j][None] - unfrac(b, fc[None]))
            t.check(np.linalg.norm(d) < 2e-3, f"{nm}: not the periodic (mass-weighted) centre of the cluster's points", f"cluster {j}: {getattr(o, nm)[j]} expected {unfrac(b, fc[None])[0]}")
        g = np.asarray(o.centers)[j].astype(float)
        com = np.asarray(o.centers_of_mass)[j].astype(float)
        d = wrap(b, P - g)
        t.close(np.asarray(o.gyrations)[j], d.T @ d / s.sum(), "gyration tensor", rtol=2e-3, atol=2e-3)
        d = wrap(b, P - com)
        I = sum(w * (np.dot(x, x) * np.eye(3) - np.outer(x, x)) for w, x in zip(m[s], d))
        t.close(np.asarray(o.inertia_tensors)[j], I, "inertia tensor", rtol=2e-3, atol=2e-3)
        t.close(np.asarray(o.radii_of_gyration)[j], np.sqrt((m[s] * (d ** 2).sum(1)).sum() / m[s].sum()), "radius of gyration", rtol=2e-3, atol=3e-3)


@contract(40)
def relabelling(t, rng):
    """the order in which the points are stored does not matter"""
    b = random_box(freud, rng)
    n = int(rng.integers(2, 20))
    p = random_points(b, rng, n)
    idx = rng.integers(0, 3, n)
    m = f32(rng.uniform(0.3, 4, n))
    perm = rng.permutation(n)
    t.inp(box=box_dict(b), points=p, cluster_idx=idx, masses=m, order=perm)
    a = freud.cluster.ClusterProperties().compute((b, p), idx, m)
    c = freud.cluster.ClusterProperties().compute((b, p[perm]), idx[perm], m[perm])
    t.same(a.sizes, c.sizes, "sizes depend on the order of points")
    t.close(a.cluster_masses, c.cluster_masses, "cluster masses depend on the order of points")
    for j in range(idx.max() + 1):
        s = idx == j
        if not s.any():
            continue
        _, conf = circ_mean(b, p[s].astype(float), m[s].astype(float))
        if conf[:2 if b.is2D else 3].min() < 0.02:
            continue
        t.close(a.inertia_tensors[j], c.inertia_tensors[j], "inertia tensors depend on the order of points", rtol=2e-2, atol=2e-2)


import computes as _c
contract(40)(_c.reuse_of("ClusterProperties"))
