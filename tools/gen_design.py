#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written text below, with the unit tables taken from the sources and
the measured counts from /verif/evidence (when present: run the quick checks first)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
T = {}
exec(open(f"{V}/tools/design_text.py").read(), T)
P = T["P"]
out = [T["HEAD"].strip(), ""]
out += ["## Properties", "",
        "Counts are of one quick run: distinct inputs (`states`), executions of the implementation, wall time",
        "on 8 cores. `+k` after a unit name is its deviation bound (quick, thorough).", ""]
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", P[i].strip(), ""]
    ev = f"{V}/evidence/{i}.json"
    e = json.load(open(ev))
    assert e["tier"] == "quick", f"{i}: run the quick check first"
    c = e["coverage"]
    out += ["| unit | bound | inputs | executions | enumerated |", "|---|---|---|---|---|"]
    pool = {}
    rows = []
    for u in c["units"]:
        g = re.match(r"([a-z]\d\d)\.", u["unit"])
        if not g:
            rows.append(u)
            continue
        k = g[1]
        if k not in pool:
            pool[k] = dict(unit=f"{k}.*", deviation_bound=u["deviation_bound"], distinct_inputs=0, executions=0, n=0)
            rows.append(pool[k])
        pool[k]["n"] += 1
        for x in ("distinct_inputs", "executions"):
            pool[k][x] += u[x]
        pool[k]["what"] = f"the files of the {pool[k]['n']} units of {k.upper()}"
    for u in rows:
        out.append(f"| {u['unit']} | {u['deviation_bound'] or '-'} | {u['distinct_inputs']} | {u['executions']} | {u['what'].replace('|', '/')} |")
    out += ["", f"Total: {c['states']} inputs, {c['traces_validated_against_impl']} executions, {c['transitions']} transitions, {e['wall_s']:.0f} s."]
    out.append("")
out += [T["TAIL"].strip(), ""]
seeds = sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []
out += ["### Committed planted bugs", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
CA = T["CAUGHT"]
for s in seeds:
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {CA.get(s, m['property'])} |")
out.append("")
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
