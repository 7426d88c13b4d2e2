"""Writes DESIGN.md from design_head.md, props.py, na.py, the evidence of the last run, seeded/, catches.json and design_tail.md."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
try:
    from na import NA
except ImportError:
    NA = []
out = [open(f"{here}/design_head.md").read(), "\n## 3. Properties and how each is decided\n"]
catch = json.load(open(f"{here}/catches.json")) if os.path.exists(f"{here}/catches.json") else {}
seeded = {}
for m in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    d = json.load(open(m)); seeded[os.path.basename(os.path.dirname(m))] = d
for p in sorted(P, key=lambda p: p["id"]):
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Anchors*: {', '.join('`' + f + '`' for f in p['files'])}.  \n*Quantified over*: {p['quant']}.  \n*Why tests cannot settle it*: {p['why']}  \n*Method*: {p['technique']}.  \n*Bounds and trust*: {p['note']}\n")
    e = f"{root}/evidence/{p['id']}.json"
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        for k, v in c.get("rules", {}).items():
            out.append(f"- rule `{k}`: {v}")
        out.append("")
    s = [k for k, d in seeded.items() if d["property"] == p["id"]]
    if s:
        out.append("Seeded changes reported by this check: " + ", ".join(f"`{x}`" + ("" if catch.get(x, True) else " (missed)") for x in s) + "\n")
out.append("## 4. Not applicable\n")
for n in NA:
    out.append(f"- **{n['id']} {n['title']}**: {n['reason']}")
out.append("\n## 5. Planted changes\n\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|")
for k, d in seeded.items():
    out.append(f"| {k} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {'yes' if catch.get(k, True) else 'no'} |")
out.append("")
if os.path.exists(f"{here}/design_tail.md"):
    out.append(open(f"{here}/design_tail.md").read())
open(f"{root}/DESIGN.md", "w").write("\n".join(out))
