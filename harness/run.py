"""run.py PID OUT SEED TIER BUDGET: evaluate the runtime contracts of a property
on the built code (bounded stand-in; finds the concrete failing inputs)."""
import importlib
import json
import sys
import time
import traceback
import warnings

import numpy as np

import rt

warnings.filterwarnings("ignore")


def main():
    pid, out, seed, tier, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], float(sys.argv[5])
    importlib.import_module("h_" + pid.lower())
    rt.TIER = tier
    t0 = time.time()
    viol, groups, samples, distinct, total = [], {}, [], set(), 0
    cs = rt.CONTRACTS
    per = budget / max(1, len(cs))
    spare = 0.0
    for gi, (name, fn, n) in enumerate(cs):
        n = n * (10 if tier == "quick" else 100)
        tg = time.time()
        lim = max(per + spare, 1.0)
        done = 0
        bad = 0
        for it in range(n):
            if time.time() - tg > lim and done >= 1:
                break
            t = rt.T(name, np.random.default_rng([seed, gi, it]), it, n)
            with open(out + ".cur", "w") as f:
                f.write(f"{pid}/{name} iteration {it} seed {seed}")
            try:
                fn(t, t.rng)
            except rt.Violation:
                pass
            except Exception as e:
                t.fails.append(("the code raised an exception", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:]))
            done += 1
            total += 1
            if t.desc is not None:
                distinct.add((name, t.desc))
                if len(samples) < 4 and it in (0, 1):
                    samples.append(f"{name}: {t.desc}"[:400])
            for w, key, det in t.fails[:1]:
                bad += 1
                if bad <= 2:
                    viol.append(dict(what=f"{name}: {w}", key=key, input=t.desc, detail=det,
                                     replay=f"harness {pid} contract {name} seed {seed} iteration {it}"))
            if bad >= 2:
                break
        spare = max(0.0, lim - (time.time() - tg))
        groups[name] = done
    rep = dict(violations=viol, evaluations=total, distinct=len(distinct), groups=groups, samples=samples,
               rule=f"numpy default_rng([{seed}, contract, iteration]); distinct = different (contract, input description)",
               wall=round(time.time() - t0, 1))
    with open(out, "w") as f:
        json.dump(rep, f, default=str)


main()
