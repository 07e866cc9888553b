"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property (from vlib/props.py's properties.jsonl, the check's module and the notes
below), the catch matrix (tools/catch.json: what plant.py observed) and tools/design_tail.md."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
for blk in open(V + "/tools/notes.md").read().split("\n## ")[1:]:
    k, t = blk.split("\n", 1)
    NOTES[k.strip()] = t.strip()
LEVEL = {}
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    LEVEL[c.get("property", c.get("id"))] = c
def attrs(pid):
    t = ast.parse(open(f"{V}/checks/{pid.lower()}.py").read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    return d
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties, one by one", "",
     "\"Case\" says what one evaluation is, what generates it and what it is judged against; \"Must see\" the kinds of events without which a run is no evidence (exit 2);",
     "\"Reach\" what the workload is shaped to reach. All limits are numbers of cases.", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    a = attrs(p["id"])
    o.append(f"### {p['id']} {p['title']}")
    o.append("")
    o.append(f"* Case: {a['RULE']}.")
    v = a.get("VARIANT", "asan")
    v = {"asan": "ASan+UBSan (`asan`)", "plain": "as shipped, under a system call tracer (`plain`)", "oom": "allocator fault injector, guarded heap (`oom`)",
         "capi": "C library alone, ASan+UBSan, driven through ctypes (`capi`)", "tsan": "ThreadSanitizer (`tsan`)"}[v]
    o.append(f"* Build: {v}{', Judy instrumented too' if a.get('JUDY_SAN') else ''}. Cases: {a['CASES']['quick']} quick, {a['CASES']['thorough']} thorough.")
    o.append(f"* Must see: {', '.join(a['MUST_OBSERVE'])}.")
    if p["id"] in NOTES: o.append("* Reach: " + " ".join(NOTES[p["id"]].split()))
    o.append(f"* Why tests cannot: {p['why_tests_cant']}")
    if a.get("ASSUMPTIONS"): o.append("* Assumed: " + "; ".join(a["ASSUMPTIONS"]) + ".")
    o.append("")
o.append("## Planted bugs and what catches them")
o.append("")
o.append("Each was written from the text of a property and the code, confirmed in a private copy (builds, the 32 tests pass, the demonstration fails with it and passes without), and then")
o.append("run against the checks. \"caught by\" names the checks whose quick run (seed 1) reports it; a check which was strengthened because it missed the bug at first is marked *.")
o.append("")
o.append("| bug | property | needs | caught by |")
o.append("|---|---|---|---|")
catch = json.load(open(V + "/tools/catch.json"))
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    o.append(f"| {s} | {m['property']} | {m['needs']} | {catch.get(s, '')} |")
o.append("")
o.append(open(V + "/tools/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
