"""Assemble DESIGN.md from design_head.md, the checks' own RULE/ASSUMPTIONS/FAMILIES and design_tail.md."""
import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
out = [(ROOT / "tools/design_head.md").read_text()]
man = {c["property"]: c for c in json.loads((ROOT / "MANIFEST.json").read_text())["checks"]}
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    tree = ast.parse((ROOT / f"checks/{p['id']}.py").read_text())
    d = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            d[n.targets[0].id] = n.value
    fams = []
    for c in ast.walk(d["FAMILIES"]):
        if isinstance(c, ast.Call) and getattr(c.func, "id", "") == "Family":
            a = [ast.unparse(x) for x in c.args]
            kw = {k.arg: ast.unparse(k.value) for k in c.keywords}
            q, t = (a + [kw.get("quick", "?"), kw.get("thorough", "?")])[2:4] if len(a) < 4 else a[2:4]
            fams.append(f"{ast.literal_eval(c.args[0])} {q}/{t}" + (" (exhaustive)" if kw.get("exhaustive") == "True" else ""))
    rule = ast.literal_eval(d["RULE"])
    asm = ast.literal_eval(d["ASSUMPTIONS"])
    out.append(f"### {p['id']} {p['title']}\n\n{rule}\n")
    scale = f" (quick counts of non-exhaustive families times {ast.literal_eval(d['QUICK_SCALE'])})" if "QUICK_SCALE" in d else ""
    out.append("*Workloads:* " + ", ".join(fams) + scale + ".  *Bounds:* " + man[p["id"]]["level_note"] + "  *Assumptions:* " + "; ".join(asm) + ".\n")
out.append((ROOT / "tools/design_tail.md").read_text())
(ROOT / "DESIGN.md").write_text("\n".join(out))
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
caught = json.loads((ROOT / "tools/caught.json").read_text()) if (ROOT / "tools/caught.json").exists() else {}
for d in sorted((ROOT / "seeded").glob("*")):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {', '.join(caught.get(d.name, ['not recorded']))} |")
text = (ROOT / "DESIGN.md").read_text().replace("SEEDTABLE", "\n".join(rows))
(ROOT / "DESIGN.md").write_text(text)
