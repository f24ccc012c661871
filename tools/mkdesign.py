import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, "tools")
sys.path.insert(0, T)
from design_props import P
import claims
out = open(os.path.join(T, "design_head.md")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in claims.NOTES:
        lv, te, note = claims.NOTES[i]
        out += f"**{i} {p['title']}** ({lv}). {P.get(i,'')} *Reach:* {note.replace(claims.TRUST,'').strip()}\n\n"
    else:
        out += f"**{i} {p['title']}** — not applicable: {claims.NA[i]}\n\n"
out += open(os.path.join(T, "design_mid.md")).read()
out += "\n| change | property | needs | caught |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    out += f"| {n} | {d['property']} | {d['needs']} | {claims.CAUGHT.get(n, 'yes: ' + d['property'])} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(out)
