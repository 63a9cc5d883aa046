#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, the properties and the last evidence of every check."""
import glob, json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
P = {}
cur = None
for line in open(os.path.join(ROOT, "tools", "design_props.md")):
    if line.startswith("@"):
        cur = line[1:].strip()
        P[cur] = ""
    elif cur:
        P[cur] += line

findings = {}
for line in open(os.path.join(ROOT, "known_findings.txt")):
    if line.startswith(("finding: ", "fixed: ")):
        kind, rest = line.split(": ", 1)
        prop, rest = rest.split(" ", 1)
        key, what = rest.strip().split(" ", 1)
        findings.setdefault(prop[9:], []).append((kind, key[4:] if kind == "finding" else key, what))

out = [HEAD.rstrip(), "", "## Properties", ""]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out += [f"### {i} — {p['title']}", "", P.get(i, "").strip(), ""]
    try:
        e = json.load(open(os.path.join(ROOT, "evidence", f"{i}.json")))
    except FileNotFoundError:
        e = None
    if e:
        out += [f"Bounds (quick tier, measured; {e['wall_s']:.0f} s on 8 cores, level *{e['level']}*):", "",
                "| space | enumerated completely | executions | judged cases | distinct model states |", "|---|---|---|---|---|"]
        for ph in e["coverage"]["phases"]:
            rule = ph["rule"].replace("|", "\\|")
            st = ph["states"] or "–"
            out.append(f"| {ph['phase']} | {rule} | {ph['executions']} | {ph['cases']} | {st} |")
        out.append("")
        if e.get("assumptions"):
            out += ["Conventions the oracle takes as given: " + "; ".join(a.rstrip(".") for a in e["assumptions"]) + ".", ""]
    fs = findings.get(i, [])
    fixed = [f for f in fs if f[0] == "fixed"]
    known = [f for f in fs if f[0] == "finding"]
    if fixed:
        out += ["Defects of the original tree found here and repaired:", ""] + [f"* `{f[1]}` {f[2]}" for f in fixed] + [""]
    if known:
        out += ["Known findings (reported, not failing):", ""] + [f"* {f[2]}" for f in known] + [""]

out += ["## Planted bugs", "", open(os.path.join(ROOT, "tools", "design_seeds.md")).read().strip(), "",
        "| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    esc = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    out.append(f"| {n} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} | {esc(caught.get(n, 'not run'))} |")
out += ["", open(os.path.join(ROOT, "tools", "design_tail.md")).read().strip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
