import numpy as np
import freud
from rt import *
from computes import Frame

NL = freud.locality.NeighborList
TWO = 2 * np.pi


def direction(mode, v, ori, qori):
    """bond direction in the frame of the mode"""
    if mode == "bod":
        return v
    if mode == "lbod":
        return qrot(qconj(ori), v)
    if mode == "obcd":
        return qrot(qori, qrot(qconj(ori), v))
    z = np.zeros_like(v)
    z[:, 2] = 1
    return qrot(qconj(ori), qrot(qori, z))


@contract(250)
def directions(t, rng):
    f = Frame(rng)
    args = f.args(rng)
    nl = f.nlist(args)
    mode = str(rng.choice(["bod", "lbod", "obcd", "oocd"]))
    nt, nph = (int(x) for x in rng.integers(2, 12, 2))
    frames = int(rng.integers(1, 4))
    own = f.q is None and rng.random() < 0.4
    qori = f.ori if own else f.qori
    none = own and rng.random() < 0.3
    ori = np.tile(f32([1, 0, 0, 0]), (f.n, 1)) if none else f.ori
    qori = ori if none else qori
    t.inp(**f.desc(), mode=mode, bins=(nt, nph), orientations=None if none else f.ori, query_orientations=None if own else qori, neighbors=args, frames=frames)
    o = freud.environment.BondOrder((nt, nph), mode=mode)
    for k in range(frames):
        o.compute((f.box, f.p), None if none else f.ori, query_points=f.q, query_orientations=None if own else qori, neighbors=nl if rng.random() < 0.5 else args, reset=k == 0)
    ij = np.asarray(nl[:]).reshape(-1, 2)
    v = np.asarray(nl.vectors, float).reshape(-1, 3)
    c = np.zeros((nt, nph), int)
    if len(ij):
        w = direction(mode, v, ori[ij[:, 1]].astype(float), qori[ij[:, 0]].astype(float))
        th = np.mod(np.arctan2(w[:, 1], w[:, 0]), TWO) / TWO * nt
        ph = np.arccos(np.clip(w[:, 2] / np.linalg.norm(w, axis=1), -1, 1)) / np.pi * nph
        if f.box.is2D and mode == "bod" and nph % 2 == 0:
            ph[:] = nph / 2 + 1e-3  # bonds in the plane: phi = pi/2 exactly
        pole = np.hypot(w[:, 0], w[:, 1]) < 1e-3
        if np.any(np.abs(th - np.round(th)) < 1e-3) or (np.any(np.abs(ph - np.round(ph)) < 4e-4)) or pole.any():
            return
        np.add.at(c, (np.floor(th).astype(int), np.floor(ph).astype(int)), 1)
    t.same(o.bin_counts.astype(int), c * frames, f"{mode}: bonds are not counted in the bin of their direction")
    e = np.arange(nph + 1) * np.pi / nph
    sa = TWO / nt * (np.cos(e[:-1]) - np.cos(e[1:]))
    t.close(o.bond_order, c / sa[None, :], f"{mode}: bond order is not count / (solid angle, frames)", rtol=1e-3, atol=1e-4)


@contract(80)
def every_direction(t, rng):
    """every bond is counted once, poles and axes included"""
    v = np.concatenate([np.eye(3), -np.eye(3), rng.normal(size=(20, 3)), [[0, 0, 1e-3], [0, 0, -7.3], [0, 0, -0.3]]])
    v = f32(v * rng.uniform(0.1, 4, (len(v), 1)))
    n = len(v)
    b = freud.box.Box.cube(20)
    p = np.zeros((2, 3), np.float32)
    nl = NL.from_arrays(2, 2, np.zeros(n, np.uint32), np.ones(n, np.uint32), v)
    nt, nph = (int(x) for x in rng.integers(2, 30, 2))
    t.inp(vectors=v, bins=(nt, nph))
    o = freud.environment.BondOrder((nt, nph)).compute((b, p), neighbors=nl)
    c = np.asarray(o.bin_counts).astype(int)
    t.check(c.sum() == n, "a bond direction is not counted", f"{c.sum()} of {n}")
    up, down = (v[:, 2] > 0) & (v[:, :2] == 0).all(1), (v[:, 2] < 0) & (v[:, :2] == 0).all(1)
    t.check(c[:, 0].sum() >= up.sum() and c[:, -1].sum() >= down.sum(), "bonds along the poles are not in the outermost polar bins", c)
    t.close(o.bin_edges[0], np.arange(nt + 1) * TWO / nt, "azimuthal bin edges", rtol=1e-5, atol=1e-5)
    t.close(o.bin_edges[1], np.arange(nph + 1) * np.pi / nph, "polar bin edges", rtol=1e-5, atol=1e-5)
