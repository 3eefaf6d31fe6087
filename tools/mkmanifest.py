"""Writes MANIFEST.json.  A property is claimed when it has contracts or a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "contract-based deductive verification: VCs generated from the clang AST of the current C++ sources, discharged by z3/cvc5 and a normal-form procedure; contracts also evaluated at run time on the built code (bounded) to find failing inputs"
PYTECH = "runtime contracts on the real functions (bounded stand-in: the code is Python, out of the deductive verifier's reach)"
CTECH = "runtime contracts on the real functions (bounded stand-in: these C++ functions are not under deductive contracts yet)"
PYTHON = {"P23", "P25", "P26"}
NOTE = {}
NA = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    c = os.path.exists(os.path.join(V, "contracts", i.lower() + ".py"))
    h = os.path.exists(os.path.join(V, "harness", f"h_{i.lower()}.py"))
    if i in NA or not (c or h):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --thorough",
                       technique=TECH if c else PYTECH if i in PYTHON else CTECH, level="proof" if c else "exploration",
                       level_note=NOTE.get(i, "") or ("Obligations of the functions under contract are discharged for all inputs, sizes and iterations over exact reals and mathematical integers; standard library, oneTBB and floating-point rounding are assumed (evidence trusted_base). Python/nanobind glue is covered only by the bounded runtime contracts." if c else "Bounded: contracts evaluated on seeded inputs.")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: contracts are sidecars over the AST extracted from /repo on every run."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
