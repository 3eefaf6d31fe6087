"""P23: mean squared displacement."""
import numpy as np
import freud
from rt import *


def window(r):
    N = len(r)
    return np.stack([((r[m:] - r[:N - m]) ** 2).sum(2).mean(0) for m in range(N)])


def direct(r):
    return ((r - r[0]) ** 2).sum(2)


@contract(200)
def msd(t, rng):
    mode = str(rng.choice(["window", "direct"]))
    box = random_box(freud, rng) if rng.random() < 0.6 else None
    T = int(rng.integers(1, 15))
    o = freud.msd.MSD(box, mode)
    parts = []
    calls = int(rng.integers(1, 4))
    log = []
    for c in range(calls):
        n = int(rng.integers(1, 6))
        p = f32(rng.uniform(-3, 3, (T, n, 3)))
        img = rng.integers(-3, 4, (T, n, 3)) if rng.random() < 0.6 else None
        if box is not None and box.is2D:
            p[..., 2] = 0
            if img is not None:
                img[..., 2] = 0
        reset = c == 0 or rng.random() < 0.25
        log.append((p, img, reset))
        t.inp(mode=mode, box=None if box is None else box_dict(box), calls=log)
        p0, i0 = p.copy(), None if img is None else img.copy()
        o.compute(p, images=img, reset=reset)
        t.same(p, p0, "positions are modified")
        if img is not None:
            t.same(img, i0, "images are modified")
        r = p.astype(float)
        if box is not None and img is not None:
            r = r + unfrac(box, img.reshape(-1, 3).astype(float)).reshape(r.shape)
        if reset:
            parts = []
        parts.append((window if mode == "window" else direct)(r))
        if rng.random() < 0.5 or c == calls - 1:
            want = np.concatenate(parts, 1)
            tol = 3e-6 * (1 + max(np.abs(x[0]).max() for x in log)) ** 2 * 400
            t.close(o.particle_msd, want, "particle_msd is not the window average / displacement from the first frame", rtol=1e-3, atol=5e-3 + tol)
            t.close(o.msd, want.mean(1), "msd is not the mean over all particles seen", rtol=1e-3, atol=5e-3 + tol)


@contract(30)
def translation(t, rng):
    """uniform motion: exact values"""
    T, n = int(rng.integers(2, 30)), int(rng.integers(1, 5))
    v = rng.uniform(-1, 1, (n, 3)) / T
    p = f32(np.arange(T)[:, None, None] * v + rng.uniform(-1, 1, (n, 3)))
    t.inp(positions=p)
    for mode in ("window", "direct"):
        m = np.array(freud.msd.MSD(mode=mode).compute(p).particle_msd)
        t.close(m, np.arange(T)[:, None] ** 2 * (v ** 2).sum(1), mode + ": uniform motion", atol=1e-4)
    t.raises(lambda: freud.msd.MSD(mode="other"), "unknown mode accepted", ValueError)
    t.raises(lambda: freud.msd.MSD(freud.box.Box.cube(3)).compute(p, images=np.zeros((T, n + 1, 3), int)), "images of another shape accepted")
