"""Assembles DESIGN.md from tools/design/*, properties.jsonl, the checks and seeded/."""
import ast
import importlib.util
import json
from pathlib import Path

R = Path(__file__).resolve().parent.parent
sp = importlib.util.spec_from_file_location("oracles", R / "tools/design/oracles.py")
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
out = [(R / "tools/design/head.md").read_text()]
for line in (R / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    i = p["id"]
    src = (R / f"checks/{i}.py").read_text()
    v = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    method, oracle = m.O[i]
    out.append(f"### {i} {p['title']}\n\n- Decided by: {method}\n- Oracle: {oracle}.\n- Bounds: {v['BOUNDS']}.\n- Outside: {v['OUTSIDE']}.\n- Beyond the tests: {p['why_tests_cant']}.\n")
out.append((R / "tools/design/tail.md").read_text())
out.append("## Planted bugs\n\nEach was written from the statement of its property, passes the stable tests and is shown by its demo.sh. "
           "\"Caught by\" names the checks that were seen to report it (quick tier).\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
caught = {}
f = R / "tools/design/caught.txt"
if f.is_file():
    for x in f.read_text().splitlines():
        a, _, b = x.partition(" ")
        caught[a] = b
for d in sorted((R / "seeded").iterdir()):
    if (d / "meta.json").is_file():
        j = json.loads((d / "meta.json").read_text())
        e = lambda s: " ".join(str(s).split()).replace("|", "\\|")
        out.append(f"| {d.name} | {j['property']} | {e(j['what_it_breaks'])} | {e(j['needs'])} | {caught.get(d.name, '?')} |")
(R / "DESIGN.md").write_text("\n".join(out) + "\n")
