"""Fills the generated parts of DESIGN.md: the list of proofs and the table of planted changes."""
import sys, os, json, importlib, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc import api
out = []
for i in range(1, 27):
    pid = f"P{i:02d}"
    if not os.path.exists(f"{V}/contracts/p{i:02d}.py"):
        continue
    m = importlib.import_module(f"contracts.p{i:02d}")
    ev = json.load(open(f"{V}/evidence/{pid}.json")) if os.path.exists(f"{V}/evidence/{pid}.json") else {"coverage": {}}
    c = ev["coverage"]
    out.append(f"**{pid}** ({c.get('discharged', '?')}/{c.get('obligations', '?')} obligations)" + ("; assumes: " + "; ".join(m.ASSUMPTIONS) if getattr(m, "ASSUMPTIONS", None) else ""))
    for pr in api.PROOFS:
        if pr["fn"].__module__ == m.__name__:
            d = " ".join((pr["fn"].__doc__ or "").split())
            out.append(f"- `{pr['name']}`" + (f": {d}" if d else ""))
    out.append("")
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(f"{V}/tools/caught.json"))
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |")
s = open(f"{V}/DESIGN.md").read()
for tag, txt in (("proofs", "\n".join(out)), ("seeded", "\n".join(rows))):
    s = re.sub(f"(<!-- {tag} -->).*?(<!-- /{tag} -->)", lambda q: q.group(1) + "\n" + txt + "\n" + q.group(2), s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
