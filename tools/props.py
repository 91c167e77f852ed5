#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "trunk/src/"
PROPS, NA = [], []

def prop(id, title, statement, over, qtext, why, files, mech, note, level="proof", observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=[S + f for f in files], mech=[dict(name=n, where=S + w) for n, w in mech], note=note, level=level, observe=observe, state=state))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["observe"]: a["observe_at"] = p["observe"]
            if p["state"]: a["state"] = p["state"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    na = {n["property"] for n in NA}
    for p in PROPS:
        if p["id"] in na: continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": "contract-based deductive verification: contracts over the real templates, instantiated with exact symbolic reals; every path's obligations discharged by normal-form, z3 nlsat/smt",
                       "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "ENIGMA_ECV", "enable": "the contracts are compiled with -DENIGMA_ECV; it only declares CLbmLidDrivenSolver::m_op (whole numbers used as indices) as Integer instead of Real", "source_commits": ["8358fac"]},
         "checks": checks, "not_applicable": NA,
         "notes": "Every check recompiles the contracts against the current headers of /repo/trunk/src. fix: commits in /repo are listed in known-findings.txt."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")

def design():
    import glob, re
    t = open(V + "/tools/DESIGN.in.md").read()
    con = {}
    for f in sorted(glob.glob(V + "/contracts/c_*.cpp")):
        for m in re.finditer(r'^(RUNTIME_CONTRACT|CONTRACT|BOUNDED_CONTRACT)\("([^"]+)", *(\w+), *"([^"]*)"(?:, *"([^"]*)")?\)', open(f).read(), re.M):
            for pid in m.group(2).split(","): con.setdefault(pid.strip(), []).append((os.path.basename(f), m.group(1), m.group(3), m.group(4) + (' [%s]' % m.group(5) if m.group(5) else '')))
    out = []
    for p in PROPS:
        out.append("### %s %s\n\n%s.  Level: %s (%s).\n\nOver: %s.\n" % (p["id"], p["title"], p["statement"].rstrip("."), p["level"], p["note"], p["qtext"]))
        for f, k, n, d in con.get(p["id"], []):
            out.append("* `%s` (%s, %s): %s" % (n, f, {"CONTRACT": "proved", "BOUNDED_CONTRACT": "bounded symbolic", "RUNTIME_CONTRACT": "bounded: generated inputs"}[k], d))
        out.append("")
    seeds = []
    cf = V + "/tools/catches.json"
    c = json.load(open(cf)) if os.path.exists(cf) else {}
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        seeds.append("* `%s` (%s): %s; needs %s. %s" % (i, m["property"], m["what_it_breaks"], m["needs"], c.get(i, "not run")))
    na = ["* %s: %s" % (n["property"], n["reason"]) for n in NA] or ["(none)"]
    for k, v in (("TABLE", out), ("SEEDS", seeds), ("NA", na)): t = t.replace("@@%s@@" % k, "\n".join(v))
    open(V + "/DESIGN.md", "w").write(t)

main()
design()
