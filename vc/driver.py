"""Runs one property's check: contracts (proof) + runtime contract replay."""
import importlib
import json
import multiprocessing as mp
import os
import threading
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.setrecursionlimit(300000)

TRUSTED = [
    "z3 5.3.2 / cvc5 1.1.2 (solvers) and the normal-form procedure vc/poly.py",
    "clang 18 front end (AST of the code as compiled: -ast-dump=json on the repository's own compile flags)",
    "the verification-condition generator vc/exec.py, vc/loops.py, vc/models.py",
    "floating point arithmetic is treated as exact real arithmetic; integers as mathematical except unsigned subtraction (wrap-around modelled)",
    "assumed contracts of the C++ standard library (vc/models.py): vector, array, complex, shared_ptr, tuple, algorithm, cmath functions as uninterpreted with axioms",
    "assumed contract of oneTBB: parallel_for runs its body once on disjoint subranges covering the range; enumerable_thread_specific gives each thread its own copy",
]


def expand_tu(name):
    from vc import cxxast
    if name.startswith("driver:"):
        return cxxast.TU(os.path.join(VERIF, "contracts", name[7:]), REPO)
    return cxxast.TU(os.path.join(REPO, "freud", name), REPO)


def _child(conn, pr, tus, concrete, budget, solver_timeout):
    """Run one proof in its own process."""
    from vc.exec import Exec
    from vc.values import Unsupported
    from vc import api, logic
    import z3
    signal.alarm(int(budget) + 5)
    out = {"name": pr["name"], "obls": [], "error": None, "covered": [], "assumed": [], "concrete": concrete}
    t0 = time.time()
    try:
        ex = Exec(tus)
        p = api.P(ex, pr["name"], concrete)
        logic.FOLDS.clear()
        logic._FOLDKEY.clear()
        logic.SORTED = False
        err = None
        try:
            pr["fn"](p)
        except Unsupported as e:
            err = f"outside the subset: {e}"
        except Exception as e:
            err = f"verifier error: {type(e).__name__}: {e}"
            out["tb"] = traceback.format_exc()[-2500:]
        out["exec_s"] = round(time.time() - t0, 2)
        out["covered"] = sorted(ex.covered)
        out["assumed"] = sorted(ex.assumed)
        # an aborted run may leave obligations whose hypotheses are incomplete
        obls = ex.obls if err is None else []
        out["error"] = err
        seen = {}
        for o in obls:
            t1 = time.time()
            logic.DEADLINE[0] = min(time.time() + 6 * solver_timeout, max(t0 + budget, time.time() + solver_timeout))
            if o.kind == "cover":
                r, m = logic._check([h for h in o.pc if not logic._has_quant(h)], 5)
                st = "refuted" if r == z3.unsat else "proved"
                out["obls"].append(dict(name=o.name, kind="cover", status=st, backend="z3", s=round(time.time() - t1, 3)))
                continue
            key = (o.goal.get_id(), tuple(h.get_id() for h in o.pc))
            if key in seen:
                st, bk, md = seen[key]
            elif time.time() - t0 > budget:
                st, bk, md = "unknown", "", "time budget"
            else:
                try:
                    r = logic.prove(o.pc, o.goal, solver_timeout)
                    md = ""
                    if r.status == "refuted" and r.model is not None:
                        md = str(r.model)[:1500]
                    elif r.status == "unknown":
                        md = r.note
                    st, bk = r.status, r.backend
                except Exception as e:
                    st, bk, md = "unknown", "", f"{type(e).__name__}: {e}"
                seen[key] = (st, bk, md)
            d = dict(name=o.name, kind=o.kind, status=st, backend=bk, s=round(time.time() - t1, 3))
            if st != "proved":
                d["goal"] = str(o.goal)[:1500]
                d["model"] = md
            out["obls"].append(d)
        out["solver_s"] = round(logic.STATS.time, 2)
        out["queries"] = logic.STATS.queries
    except BaseException as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["tb"] = traceback.format_exc()[-2500:]
    out["wall"] = round(time.time() - t0, 2)
    try:
        conn.send(out)
    except Exception:
        pass
    conn.close()
    os._exit(0)


def child(*a):
    """in a thread with a deep stack (terms and syntax trees are walked recursively)"""
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=_child, args=a)
    t.start()
    t.join()
    os._exit(0)


def group(conn, tunames, proofs, budget, solver_timeout, slots):
    """Parse the translation units, then run the proofs that need them."""
    res = []
    try:
        tus = [expand_tu(t) for t in tunames]
    except BaseException as e:
        conn.send([dict(name=p["name"], obls=[], error=f"parse: {type(e).__name__}: {str(e)[:300]}", covered=[], assumed=[]) for p in proofs])
        os._exit(0)
    running = []
    todo = list(proofs)

    def reap(block):
        for it in list(running):
            p, c, proc, conc, dl = it
            if c.poll(0.05 if block else 0):
                try:
                    r = c.recv()
                except EOFError:
                    r = dict(name=p["name"], obls=[], error="verifier process died", covered=[], assumed=[])
                proc.join()
                running.remove(it)
                slots.release()
                finish(p, r, conc)
            elif not proc.is_alive() or time.time() > dl:
                if proc.is_alive():
                    proc.kill()
                proc.join()
                running.remove(it)
                slots.release()
                finish(p, dict(name=p["name"], obls=[], error="time budget of the verifier exhausted", covered=[], assumed=[]), conc)

    def start(p, conc):
        a, b = mp.Pipe(False)
        bud = p["timeout"] or budget
        proc = mp.get_context("fork").Process(target=child, args=(b, p, tus, conc, bud, solver_timeout))
        proc.start()
        b.close()
        running.append((p, a, proc, conc, time.time() + bud + 8))

    def finish(p, r, conc):
        if conc is None:
            p["_r"] = r
            r["confirm"] = []
            res.append(r)
            bad = r["error"] or any(o["status"] != "proved" for o in r["obls"])
            if bad and p["sizes"]:
                for n in (1, 2, 3):
                    todo.append((p, {s: n for s in p["sizes"]}))
        else:
            p["_r"]["confirm"].append(r)
    while todo or running:
        if todo and len(running) < 4 and slots.acquire(bool(not running), 0.2):
            x = todo.pop(0)
            if isinstance(x, tuple):
                start(*x)
            else:
                start(x, None)
        else:
            reap(True)
    conn.send(res)
    os._exit(0)


def run_proofs(mod, budget, solver_timeout):
    from vc import api
    groups = {}
    for p in api.PROOFS:
        groups.setdefault(tuple(p["tus"]), []).append(p)
    ctx = mp.get_context("fork")
    slots = ctx.Semaphore(8)
    ps = []
    for tn, prs in groups.items():
        a, b = ctx.Pipe(False)
        pr = ctx.Process(target=group, args=(b, tn, prs, budget, solver_timeout, slots))
        pr.start()
        b.close()
        ps.append((pr, a, prs))
    return ps


def collect_proofs(ps):
    out = []
    for pr, a, prs in ps:
        try:
            out += a.recv()
        except EOFError:
            out += [dict(name=p["name"], obls=[], error="verifier process died", covered=[], assumed=[], confirm=[]) for p in prs]
        pr.join()
    return out


def build_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONPATH=scratch + os.pathsep + os.path.join(VERIF, "harness"), MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return env


def start_build(scratch):
    return subprocess.Popen(["bash", os.path.join(VERIF, "harness", "build.sh"), REPO, scratch],
                            stdout=open(scratch + "/build.log", "w"), stderr=subprocess.STDOUT, start_new_session=True)


def run_harness(pid, scratch, seed, tier, boost):
    """Runtime contract checks on the built code; returns (report, error)."""
    out = os.path.join(scratch, "h.json")
    budget = (25 if tier == "quick" else 240) * (2 if boost else 1)
    cmd = ["/opt/venv/bin/python", os.path.join(VERIF, "harness", "run.py"), pid, out, str(seed), tier, str(budget)]
    try:
        p = subprocess.run(cmd, env=build_env(scratch), cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=budget * 3 + 120)
    except subprocess.TimeoutExpired as e:
        return None, "harness timed out", str(e.stdout)[-2000:]
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f), None, p.stdout[-3000:]
    cur = ""
    if os.path.exists(out + ".cur"):
        with open(out + ".cur") as f:
            cur = f.read()
    return {"crash": p.returncode, "current": cur, "violations": [], "evaluations": 0}, None, p.stdout[-3000:]


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and l.startswith("{"):
                out.append(json.loads(l))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    no_proof = "--no-proof" in sys.argv
    no_harness = "--no-harness" in sys.argv
    verbose = "-v" in sys.argv
    scratch = tempfile.mkdtemp(prefix="vf_")
    rc = 0
    try:
        rc = check(pid, tier, seed, scratch, no_proof, no_harness, verbose, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(pid, tier, seed, scratch, no_proof, no_harness, verbose, t0):
    bld = None if no_harness else start_build(scratch)
    proofs = []
    ps = []
    mod = None
    if not no_proof and os.path.exists(os.path.join(VERIF, "contracts", pid.lower() + ".py")):
        mod = importlib.import_module("contracts." + pid.lower())
        only = [a[7:] for a in sys.argv if a.startswith("--only=")]
        if only:
            from vc import api
            api.PROOFS[:] = [p for p in api.PROOFS if any(o in p["name"] for o in only)]
        ps = run_proofs(mod, 45 if tier == "quick" else 300, 6 if tier == "quick" else 40)
    harness = None
    hlog = ""
    herr = None
    builderr = None
    if bld is not None:
        rc = bld.wait()
        if rc != 0:
            builderr = open(scratch + "/build.log").read()[-2000:]
    if ps:
        proofs = collect_proofs(ps)
    # classify the obligations
    undis, refuted, nobl, ndis = [], [], 0, 0
    for r in proofs:
        if r["error"]:
            undis.append(dict(proof=r["name"], obligation="*", why=r["error"]))
        conf = {}
        for c in r.get("confirm", []):
            for o in c["obls"]:
                if o["status"] == "refuted" and o["kind"] != "cover":
                    conf.setdefault(o["name"], dict(sizes=c["concrete"], model=o.get("model", ""), goal=o.get("goal", "")))
        hassizes = bool(r.get("confirm"))
        for o in r["obls"]:
            if o["kind"] == "cover":
                if o["status"] != "proved":
                    undis.append(dict(proof=r["name"], obligation=o["name"], why="contradictory precondition"))
                continue
            nobl += 1
            if o["status"] == "proved":
                ndis += 1
                continue
            e = dict(proof=r["name"], obligation=o["name"], why=o["status"], goal=o.get("goal", ""), model=o.get("model", ""))
            if o["name"] in conf or (o["status"] == "refuted" and not hassizes):
                if o["name"] in conf:
                    e["counterexample"] = conf[o["name"]]
                refuted.append(e)
            else:
                undis.append(e)
        if r["error"] or not r["obls"]:
            for nm, c in conf.items():
                refuted.append(dict(proof=r["name"], obligation=nm, why="refuted at concrete sizes", counterexample=c,
                                    goal=c["goal"], model=c["model"]))
    if verbose:
        for r in proofs:
            print(f"-- {r['name']}: exec {r.get('exec_s')}s wall {r.get('wall')}s solver {r.get('solver_s')}s queries {r.get('queries')} err={r['error']}")
            if r.get("tb"):
                print(r["tb"])
            for o in r["obls"]:
                if o["status"] != "proved" or "-vv" in sys.argv:
                    print("   ", o["status"], o["kind"], o["name"], o["backend"], o["s"], o.get("goal", "")[:600], o.get("model", "")[:600])
            for c in r.get("confirm", []):
                print("    confirm", c["concrete"], c["error"], [(o["name"], o["status"]) for o in c["obls"] if o["status"] != "proved"])
    # runtime contract checks
    viol = []
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    if bld is not None:
        if builderr is not None:
            print("build failed:\n" + builderr)
            print(f"undecided: the tree does not build; no statement about {pid}")
            harness = None
        else:
            harness, herr, hlog = run_harness(pid, scratch, seed, tier, bool(undis or refuted))
            if harness is not None:
                if "crash" in harness:
                    viol.append(dict(what="the process died while evaluating a contract", input=harness["current"],
                                     detail=f"exit status {harness['crash']}\n{hlog}"))
                viol += harness["violations"]
    seenk = []
    fresh = []
    for v in viol:
        k = next((k for k in known if k.get("match") and k["match"] in (v["what"] + " " + str(v.get("key", "")))), None)
        if k is not None:
            seenk.append(k)
        else:
            fresh.append(v)
    for k in {id(k): k for k in seenk}.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = os.path.join(VERIF, "evidence", "replay")
    rc = 0
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, failing=fresh[:5], failed_obligations=refuted[:10], undecided=undis[:10],
                           replay_cmd=f"cd {VERIF} && ./check {pid} (seed {seed})"), f, indent=1, default=str)
        for v in fresh[:3]:
            print(f"  {v['what']}: {str(v.get('input'))[:600]} {str(v.get('detail', ''))[:400]}")
        for e in refuted[:5]:
            print(f"  failed obligation: {e['obligation']}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif refuted:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, failed_obligations=refuted, undecided=undis[:10]), f, indent=1, default=str)
        for e in refuted[:5]:
            print(f"  failed obligation: {e['obligation']}\n    goal {e['goal'][:400]}\n    counter-model {e['model'][:400]}")
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        rc = 1
    write_evidence(pid, tier, seed, mod, proofs, nobl, ndis, undis, refuted, harness, herr, len(fresh), seenk, time.time() - t0)
    if rc == 0:
        h = harness or {}
        print(f"{pid}: {ndis}/{nobl} obligations discharged in {len(proofs)} proofs, {len(undis)} undecided; "
              f"runtime contracts: {h.get('evaluations', 0)} evaluations; {time.time()-t0:.1f} s")
        for u in undis[:6]:
            print(f"  undecided (bounded runtime check stands in): {u['proof']}: {u['obligation']}: {u['why']}")
        if herr:
            print("  " + herr)
    return rc


def write_evidence(pid, tier, seed, mod, proofs, nobl, ndis, undis, refuted, harness, herr, nviol, seenk, wall):
    level = "proof"
    if not nobl or undis or refuted:
        level = "exploration" if not nobl else "proof"
    backends = {}
    for r in proofs:
        for o in r["obls"]:
            if o["status"] == "proved" and o["kind"] != "cover":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    cov = sorted({c for r in proofs for c in r["covered"]})
    asm = sorted({c for r in proofs for c in r["assumed"]})
    h = harness or {}
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=nviol,
              coverage=dict(
                  obligations=nobl, discharged=ndis, undecided=undis[:40],
                  checker_cmd=f"cd /verif && ./check {pid}",
                  trusted_base=TRUSTED,
                  backends=backends,
                  functions_under_contract=cov,
                  callee_contracts_used=asm,
                  proofs=[dict(name=r["name"], obligations=len([o for o in r["obls"] if o["kind"] != "cover"]),
                               discharged=len([o for o in r["obls"] if o["kind"] != "cover" and o["status"] == "proved"]),
                               error=r["error"], solver_s=r.get("solver_s"), wall_s=r.get("wall")) for r in proofs],
                  solver_s=round(sum(r.get("solver_s") or 0 for r in proofs), 2),
                  bounded_runtime_contracts=dict(
                      label="BOUNDED: contracts evaluated on the built code; never counted as proved",
                      evaluations=h.get("evaluations", 0), groups=h.get("groups", {}), error=herr),
                  evaluations=h.get("evaluations", 0), distinct_nontrivial=h.get("distinct", 0),
                  rule=h.get("rule", "seeded inputs; distinct = different (group, input) pairs; trivial (empty) inputs not counted"),
                  samples=h.get("samples", [])[:4] or [o["name"] for r in proofs for o in r["obls"]][:4]),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + TRUSTED[3:],
              known_findings=[k["what"] for k in seenk])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
