#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl; with --baseline also contracts/baseline.json"""
import json, os, re, sys, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
def under_contract(u, seen=None):
    seen = set() if seen is None else seen
    r = []
    p = os.path.join(V, "contracts", u + ".vrs")
    for l in open(p):
        m = re.match(r"\s*@include (\S+)", l)
        if m:
            n = os.path.basename(m.group(1)).replace(".vrs", "")
            if n not in seen: seen.add(n); r += under_contract(n, seen)
        m = re.match(r"\s*@fn (.*)", l)
        if m: r.append(m.group(1).strip())
    return r
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
TECH = "contract-based deductive verification (Verus) of the functions extracted from /repo on every run"
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       evidence_file=f"evidence/{i}.json",
                       technique=((TECH + ("; bounded replay on the real code" if c.get("harness") else "")) if c["units"] else
                           "bounded stand-in, not a proof: the real code run against an independent oracle on generated and exhaustive small inputs"), level=c["level"] if c["units"] else "exploration", level_note=c.get("note") or c["explain"] or "see DESIGN.md"))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Nothing is guarded in /repo: the checks append test modules to a scratch copy of it. known-findings.txt lists findings and fixes.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
# ---- DESIGN.md: the generated parts
D = os.path.join(V, "DESIGN.md")
t = open(D).read()
def put(t, a, b, body):
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + "\n" + body + t[j:]
recs = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()}
fns = {}
for i in ids:
    if i not in PROPS: continue
    for u in PROPS[i]["units"]:
        try: fns[i] = [re.sub(r"^.*\| ", "", l) for l in under_contract(u)]
        except Exception as e: fns[i] = []
out = ""
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    out += f"### {i}. {recs[i]['title']}\n\nContracts: {c['what']}\n\n"
    out += f"Under contract ({len(fns.get(i, []))}): " + ", ".join(fns.get(i, [])) + ".\n\n"
    out += "Assumed: " + "; ".join(c["assume"]) + ".\n\nBounded only: " + c["bounded"] + ".\n\n"
t = put(t, "<!-- generated by tools/mkmanifest.py from tools/props.py -->", "<!-- end -->", out)
seeds = ""
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds += f"* `{d}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']}\n"
t = put(t, "<!-- seeds -->", "<!-- end seeds -->", seeds)
t = put(t, "<!-- na -->", "<!-- end na -->", "".join(f"* {i}: {NOT_APPLICABLE.get(i)}\n" for i in ids if i not in PROPS))
open(D, "w").write(t)
if "--baseline" in sys.argv:
    import rsx, vrun
    sys.path.insert(0, V)
    import check
    b = {}
    for u in sorted({u for c in PROPS.values() for u in c["units"]}):
        x = rsx.Unit(f"contracts/{u}.vrs", "/repo", V)
        lines = x.text.split("\n")
        b[u] = {"sha": hashlib.sha256(x.text.encode()).hexdigest(), "opaque": {}}
        for f in x.fns: b[u]["opaque"][f"{f['file']}:{f['sel']}"] = {k: n for k, n in check.opaque("\n".join(lines[f["first"] - 1:f["last"]])).items() if n}
    json.dump(b, open(os.path.join(V, "contracts", "baseline.json"), "w"), indent=0)
print(len(checks), "checks;", len(na), "not applicable")
