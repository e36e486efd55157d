#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json, tools/checks.json and DESIGN.md.

  python3 tools/props.py        rewrites the files
"""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "docx-core/src/"
SX = "symbolic execution of the library compiled to wasm64 (forking, QF_BV queries to Z3), counterexamples replayed natively"
P = {}
NA = {}


def prop(id, title, statement, over, quant, why, files, mech, bounds, assumptions=(), **conf):
    """bounds: {harness: text}; conf: further keys of checks.json"""
    P[id] = dict(
        p={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why,
            "anchors": {
                "files": [D + f for f in files],
                "mechanism": [{"name": n, "where": D + w} for n, w in mech],
            },
        },
        c=dict(harnesses=bounds, assumptions=list(assumptions), **conf),
    )


for f in sorted(glob.glob(os.path.join(V, "tools/props.d/*.py"))):
    exec(open(f).read())

for id, x in P.items():
    assert re.match(r"^[A-Z][0-9]{2,3}$", id), id
    assert len(x["p"]["title"]) <= 80, (id, len(x["p"]["title"]))
    assert len(re.findall(r"[.!?](\s|$)", x["p"]["statement"])) <= 3, (id, "more than three sentences")
    for f in x["p"]["anchors"]["files"] + [m["where"] for m in x["p"]["anchors"]["mechanism"]]:
        assert os.path.exists(os.path.join("/repo", f)), (id, f)

ids = sorted(P)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in ids:
        f.write(json.dumps(P[i]["p"], ensure_ascii=False) + "\n")
json.dump({i: P[i]["c"] for i in ids if i not in NA}, open(os.path.join(V, "tools/checks.json"), "w"), indent=1, ensure_ascii=False)
json.dump({
    "version": 1,
    "setup_cmd": "bash /verif/tools/build.sh base native wasm",
    "hooks": {"guard": "none", "enable": "none needed: the harnesses use the public API only", "source_commits": []},
    "checks": [{
        "property": i,
        "quick_cmd": "python3 /verif/tools/check.py %s" % i,
        "thorough_cmd": "python3 /verif/tools/check.py %s --thorough" % i,
        "evidence_file": "/verif/evidence/%s.json" % i,
        "technique": SX,
        "level": "model_checking",
        "level_note": "holds for every value of the symbolic inputs on every path within the bounds listed per harness in the evidence and in DESIGN.md; nothing is claimed outside them",
    } for i in ids if i not in NA],
    "not_applicable": [{"property": i, "reason": NA[i]} for i in sorted(NA)],
    "notes": "Checks share one build of the engine, the wasm64 module and the native replay binary (tools/build.sh); everything derived from /repo is rebuilt on every run.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


# ---- DESIGN.md
def text(n):
    return open(os.path.join(V, "tools/design", n)).read()


ns = {}
exec(text("notes.py"), ns)
missing = [i for i in ids if i not in ns["NOTES"] and i not in NA]
assert not missing, missing
o = [text("head.md").rstrip(), "", "## 4. Properties", ""]
for i in ids:
    x = P[i]
    o += ["### %s %s" % (i, x["p"]["title"]), "", x["p"]["statement"], ""]
    if i in NA:
        o += ["*Not applicable:* " + NA[i], ""]
        continue
    o += ["*How it is decided.* " + ns["NOTES"][i], "", "*Beyond tests.* " + x["p"]["why_tests_cant"], "", "*Bounds.*", ""]
    o += ["- `%s`: %s" % (h, b) for h, b in x["c"]["harnesses"].items()]
    if x["c"]["assumptions"]:
        o += ["", "*Assumed.* " + "; ".join(x["c"]["assumptions"]) + "."]
    o.append("")
o += ["## 5. Planted bugs", "", text("planted.md").rstrip()]
res = json.loads(text("results.json"))
for d in sorted(glob.glob(os.path.join(V, "seeded/B*"))):
    m = json.load(open(d + "/meta.json"))
    b = os.path.basename(d)
    o.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), res.get(b, "caught")))
o += ["", text("tail.md").rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
