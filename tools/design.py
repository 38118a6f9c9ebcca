"""Fill the tables of DESIGN.md from DESIGN.in.md, the registry and tools/caught.json (run by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, ROOT + "/tools")
import registry
rows = []
for p, note in sorted(registry.PROPS, key=lambda x: x[0]["id"]):
    rows.append(f"| {p['id']} {p['title']} | {registry.SPECS.get(p['id'], '')} | {note} | {', '.join('`' + o + '`' for o in p['anchors']['observe_at'])} |")
caught = json.load(open(ROOT + "/tools/caught.json")) if os.path.exists(ROOT + "/tools/caught.json") else {}
bugs = []
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    bugs.append(f"* `{b}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} — {caught.get(b, 'not run yet')}")
s = open(ROOT + "/DESIGN.in.md").read().replace("@@TABLE@@", "\n".join(rows)).replace("@@BUGS@@", "\n".join(bugs))
open(ROOT + "/DESIGN.md", "w").write(s)
