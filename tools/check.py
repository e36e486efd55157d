#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C04              tier from VERIF_TIER (quick by default)
  check.py C04 --thorough

Rebuilds the wasm64 module and the native replay binary from /repo's current
working tree, explores every harness of the property symbolically, confirms
what the exploration reports against the real code, writes
evidence/<id>.json.

exit 0: held on every path within the bounds (or only known findings)
exit 1: a reproduced violation (VIOLATION line)
other : the check could not decide (build error, inconclusive path, model
        that does not reproduce, encoding and real code disagree, ...)
"""
import collections, concurrent.futures, json, os, re, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
SYMEX = os.path.join(B, "engine/release/symex")
WASM = os.path.join(B, "wasm/wasm64-unknown-unknown/release/harness.wasm")
REPLAY = os.path.join(B, "native/debug/replay")
T0 = time.time()


def die(msg, code=2):
    print("ERROR:", msg)
    sys.exit(code)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def demangle(n):
    m = re.match(r"_ZN(.*)E$", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s:
        k = re.match(r"\d+", s)
        if not k:
            break
        l = int(k.group(0))
        out.append(s[k.end():k.end() + l])
        s = s[k.end() + l:]
    if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
        out.pop()
    r = "::".join(out)
    for a, b in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"),
                 ("$C$", ","), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("..", "::")]:
        r = r.replace(a, b)
    return r.lstrip("_")


def build():
    lf = os.path.join(B, "build.log")
    os.makedirs(B, exist_ok=True)
    sh = ["bash", os.path.join(V, "tools/build.sh")]

    def run(what):
        f = open(lf + "." + what, "w")
        return subprocess.Popen(sh + [what], stdout=f, stderr=subprocess.STDOUT)

    p = run("base")
    n = run("native")
    if p.wait():
        n.wait()
        die("building the engine failed, see %s.base" % lf)
    w = run("wasm")
    for what, q in [("native", n), ("wasm", w)]:
        if q.wait():
            w.wait()
            txt = open(lf + "." + what).read()
            i = txt.find("\nerror")
            sys.stdout.write(txt[max(i, 0):][:4000])
            die("building %s from the current /repo failed" % what)


def replay(lines, deep, timeout):
    """native runs, one process each (identifier counters start afresh as in
    the encoding); returns list of result dicts (None: did not finish)"""

    def one(line):
        with tempfile.NamedTemporaryFile("w", suffix=".txt", dir=B) as f:
            f.write(line + "\n")
            f.flush()
            env = dict(os.environ, SX_DEEP="1" if deep else "0")
            cmd = ["bash", "-c", "ulimit -v 6000000; exec \"$0\" \"$1\"", REPLAY, f.name]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            for l in out.decode("utf-8", "replace").splitlines():
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                if "failed" in o:
                    return o
            return None

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, lines))


def known_findings():
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) id=(.+?) :: (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    deep = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = json.load(open(os.path.join(V, "tools/checks.json")))
    if prop not in conf:
        die("no such check")
    cf = conf[prop]
    limit = cf.get("time", 780) if not deep else cf.get("time_thorough", 3000)
    jobs = str(os.cpu_count() or 4)
    if "--no-build" not in sys.argv:
        build()
    log("built")
    have = subprocess.run([SYMEX, WASM, "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    hs = sorted(h for h in have if re.match(r"h_%s(_|$)" % prop.lower(), h))
    if sorted(cf["harnesses"]) != hs:
        die("harness list mismatch: %s vs %s" % (sorted(cf["harnesses"]), hs))
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f == prop + ".json" or f.startswith("replay-%s-" % prop):
            os.unlink(os.path.join(ev, f))

    known = [k for k in known_findings() if k[0] == prop]
    tot = collections.Counter()
    fns = set()
    per = {}
    samples = []
    validated = 0
    problems = []
    viols = []  # confirmed, unlisted
    seen_known = {}
    for h in cf["harnesses"]:
        if only and h not in only:
            continue
        t = time.time()
        left = limit - (time.time() - T0)
        if left < 10:
            problems.append("%s: no time left" % h)
            break
        out = os.path.join(B, "out-%s.jsonl" % h)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [SYMEX, WASM, h, "--out", out, "--jobs", jobs, "--time", str(int(left))]
        cmd += ["--samples", str(cf.get("samples", 6))]
        if deep:
            cmd.append("--deep")
        for k in ("max-steps", "rlimit", "max-pages"):
            if k in cf:
                cmd += ["--" + k, str(cf[k])]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        st = collections.Counter()
        mx = collections.Counter()
        reach = collections.Counter()
        paths, vs = [], []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    o = json.loads(l)
                except ValueError:
                    problems.append("%s: unreadable engine output" % h)
                    continue
                k = o.get("t")
                if k == "path":
                    paths.append(o)
                elif k == "viol":
                    vs.append(o)
                elif k == "stat":
                    for a, b in o.items():
                        if isinstance(b, (int, float)) and not isinstance(b, bool):
                            if a.startswith("max_") or a.endswith("max_s"):
                                mx[a] = max(mx[a], b)
                            else:
                                st[a] += b
                elif k == "reach":
                    reach[o["id"]] += o["n"]
                elif k == "incon":
                    problems.append("%s: inconclusive: %s (%d)" % (h, o["why"], o["n"]))
                elif k == "fns":
                    fns.update(o["f"])
            os.unlink(out)
        if r.returncode != 0 and not vs:
            problems.append("%s: engine exit %d: %s" % (h, r.returncode, r.stdout[-400:]))
        if not vs:
            for m in cf.get("reach", {}).get(h, ["end"]):
                if not reach[m]:
                    problems.append("%s: marker '%s' not reached (vacuous)" % (h, m))
        tot.update(st)
        # violations: confirm natively
        groups = collections.OrderedDict()
        for v in vs:
            groups.setdefault((v["kind"], v["id"]), []).append(v)
        for (kind, id_), g in groups.items():
            g.sort(key=lambda v: len(v["inputs"]))
            ok = None
            for v in g[:4]:
                line = "%s %s" % (h, " ".join(str(x) for x in v["inputs"]))
                res = replay([line], deep, 20 if kind == "hang" else 60)[0]
                if kind == "hang":
                    good = res is None
                elif res is None:
                    good = kind == "panic"  # aborted (stack/memory exhaustion)
                elif kind == "assert":
                    good = any(f[0] == id_ for f in res["failed"]) and not res["assumed_away"]
                else:
                    good = res["panic"] is not None and not res["allow"] and not res["assumed_away"]
                if good:
                    ok = (v, line, res)
                    break
            if not ok:
                problems.append("%s: %s '%s' does not reproduce against the real code (inputs %s) %s" % (
                    h, kind, id_, g[0]["inputs"], g[0].get("detail", "")[:300]))
                continue
            v, line, res = ok
            det = v.get("detail", "")
            if res:
                if kind == "assert":
                    det = next((f[1] for f in res["failed"] if f[0] == id_), "") or det
                elif res["panic"]:
                    det = res["panic"]
            kf = [k for k in known if k[1] == h and k[2] == id_]
            if kf:
                seen_known[kf[0]] = 1
                continue
            viols.append((h, kind, id_, det, line))
        # sampled paths: the real code must behave as the encoding says
        lines = ["%s %s" % (h, " ".join(str(x) for x in p["inputs"])) for p in paths]
        if lines and not viols:
            res = replay(lines, deep, 120)
            for p, r_ in zip(paths, res):
                if r_ is None:
                    problems.append("%s: native run of a completed path does not finish: %s" % (h, p["inputs"]))
                elif r_["panic"] is not None and not r_["allow"] and not r_["assumed_away"]:
                    problems.append("%s: native run panics on a completed path: %s %s" % (h, p["inputs"], r_["panic"]))
                elif r_["failed"] and not (vs or any(k[1] == h for k in known)):
                    problems.append("%s: native run fails %s on a path decided as holding: %s" % (h, r_["failed"][:2], p["inputs"]))
                elif not r_["panic"] and (r_["nobs"] != p["nobs"] or r_["obs"] != p["obs"]):
                    problems.append("%s: encoding and real code disagree on %s" % (h, p["inputs"]))
                else:
                    validated += 1
        for p in paths[:2]:
            samples.append({"harness": h, "inputs": p["inputs"], "observed": p["obs"], "instructions": p["steps"]})
        per[h] = {
            "paths": int(st["paths"]), "instructions": int(st["steps"]), "forks": int(st["forks"]),
            "assertions": int(st["asserts"]), "assertions_decided_by_solver": int(st["asserts_solver"]),
            "queries": int(st["queries"]), "sat": int(st["sat"]), "unsat": int(st["unsat"]), "unknown": int(st["unknown"]),
            "solver_s": round(st["solver_s"], 2), "longest_query_s": round(mx["solver_max_s"], 3),
            "max_symbolic_inputs": int(mx["max_inputs"]), "longest_path_instructions": int(mx["max_steps"]),
            "reached": dict(reach), "wall_s": round(time.time() - t, 1),
            "bounds": cf["harnesses"][h],
        }
        log("%s: %d paths, %d queries (%.1f s), %d asserts, %d Minstr, %.1f s%s" % (
            h, st["paths"], st["queries"], st["solver_s"], st["asserts"], st["steps"] // 1000000, time.time() - t,
            ", VIOLATION" if viols else ""))
        if viols and "--all" not in sys.argv:
            break

    real = sorted({demangle(f) for f in fns})
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot["paths"] + tot["forks"]),
            "transitions": int(tot["steps"]),
            "traces_validated_against_impl": validated,
            "samples": samples[:12] or [{"note": "no completed path"}],
            "explanation": "states = symbolic path states explored, transitions = wasm instructions executed symbolically; "
                           "every path carries symbolic inputs and stands for all values satisfying its path condition",
            "paths": int(tot["paths"]),
            "queries": int(tot["queries"]), "sat": int(tot["sat"]), "unsat": int(tot["unsat"]), "unknown": int(tot["unknown"]),
            "solver_s": round(tot["solver_s"], 2),
            "assertions": int(tot["asserts"]), "assertions_by_simplification": int(tot["asserts_folded"]),
            "assertions_by_solver": int(tot["asserts_solver"]),
            "queries_closing_a_path": int(tot["closing"]), "queries_confirming_a_branch": int(tot["confirmed"]),
            "concretizations": int(tot["concretized"]),
            "functions_encoded_count": len(real),
            "functions_encoded": real[:400],
            "harnesses": per,
        },
        "assumptions": cf.get("assumptions", []) + [
            "claims hold within the bounds listed per harness, nothing outside them",
            "zip container and memchr are models in the encoding (real crates in the native confirmation runs)",
            "compiled for wasm64 by the nightly toolchain, panic=abort, bump allocator",
        ],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(viols),
    }
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)

    for k in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    if viols:
        for i, (h, kind, id_, det, line) in enumerate(viols[:8]):
            f = os.path.join(ev, "replay-%s-%d.txt" % (prop, i + 1))
            open(f, "w").write(line + "\n")
            print("  %s %s in %s: %s" % (kind, id_, h, det[:600]))
            print("  replay: %s%s %s" % ("SX_DEEP=1 " if deep else "", REPLAY, f))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        sys.exit(1)
    if problems:
        for p in problems[:20]:
            print("PROBLEM:", p)
        sys.exit(3)
    print("OK property=%s tier=%s paths=%d queries=%d wall=%.1fs" % (prop, tier, tot["paths"], tot["queries"], time.time() - T0))


main()
