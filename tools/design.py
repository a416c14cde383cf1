"""Compose DESIGN.md: hand-written text (here) + the rule, bounds and sections declared by each check module
+ defects (known_findings.txt) + planted bugs (seeded/*/meta.json, tools/caught.json).

    /opt/venv/bin/python tools/design.py
"""
import glob, importlib, json, os, sys, textwrap
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here+"/lib", here+"/checks", os.environ.get("DESIMETER_REPO", "/repo")+"/py"]
os.chdir(here)
P = {}
for l in open("properties.jsonl"):
    d = json.loads(l); P[d["id"]] = d
COST = json.load(open("tools/cost.json")) if os.path.exists("tools/cost.json") else {}
CAUGHT = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
FIX = [l.split(None, 3) for l in open("known_findings.txt") if l.startswith("fixed:")]
KNOWN = [l.strip() for l in open("known_findings.txt") if l.startswith("known:")]

HEAD = open("tools/design_head.md").read()
ORACLE = {}
key = None
for l in open("tools/design_oracles.md"):
    if l.startswith("## "):
        key = l[3:].strip(); ORACLE[key] = ""
    elif key:
        ORACLE[key] += l

out = [HEAD]
out.append("## Properties and how each is decided\n")
mods = {}
for f in sorted(glob.glob("checks/c[0-9]*.py")):
    m = importlib.import_module(os.path.basename(f)[:-3])
    mods[m.PROPERTY] = (m, f)
for k in sorted(P):
    m, f = mods[k]
    out.append("### %s %s\n" % (k, P[k]["title"]))
    out.append("*Check:* `%s`, level `%s`. *Command:* `bin/check %s quick|thorough`.\n" % (f, m.LEVEL, k))
    out.append("*Enumerated:* %s\n" % m.RULE)
    out.append("*Bounds and assumptions:* %s.\n" % "; ".join(m.ASSUMPTIONS))
    out.append("*Oracle, and why tests cannot settle it:* %s\n" % ORACLE.get(k, "").strip())
    out.append("*Sections:*\n")
    for s in m.SECTIONS:
        d = (s.__doc__ or "").strip()
        out.append("- `%s`%s" % (s.__name__, ": "+" ".join(d.split()) if d else ""))
    out.append("")
    c = COST.get(k)
    if c:
        out.append("*Cost* (8 cores): quick %.0f s, %d executions; thorough %.0f s, %d executions.\n" % (c["quick"][0], c["quick"][1], c["thorough"][0], c["thorough"][1]))
out.append("## Defects of desimeter found by the checks\n")
out.append("Each was shown on the real code by the check named, and repaired by a separate `fix:` commit; the check reports it again when the repair is undone.\n")
out.append("| property | commit | what failed |\n|---|---|---|")
for _, p, c, t in FIX:
    out.append("| %s | %s | %s |" % (p.split("=")[1], c, t.strip()))
out.append("")
if KNOWN:
    out.append("Known, not repaired (see known_findings.txt):\n")
    out += ["- "+k for k in KNOWN]; out.append("")
out.append(open("tools/design_tail.md").read())
out.append("## Planted bugs\n")
out.append("Every one applies to HEAD, passes the 41 stable tests, and its demonstration exits 0 without and nonzero with it.\n")
out.append("| id | needs | caught by |\n|---|---|---|")
for d in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(d)); i = d.split("/")[1]
    out.append("| %s | %s | %s |" % (i, str(j["needs"]).replace("|", "/").replace("\n", " "), CAUGHT.get(i, "?")))
open("DESIGN.md", "w").write("\n".join(out)+"\n")
print("ok", sum(len(x) for x in out))
