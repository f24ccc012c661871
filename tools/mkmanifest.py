#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with proofs in contracts/ is claimed; the rest is not_applicable."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())   # NOTES, NA
have = set()
for f in glob.glob(os.path.join(V, "contracts", "*.c")):
    have |= set(re.findall(r"^//@ proof .*prop=(C\d+)", open(f).read(), re.M))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        level, tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA[i]})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "LIBO_CONTRACTS", "enable": "goto-cc -DLIBO_CONTRACTS, and -DOSC_MATCH_CONTRACT_LIMIT for the matcher (only the verifier's build defines them)", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
