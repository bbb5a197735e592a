#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of /repo's current code.

Exit 0: every harness of the property was explored completely within its bounds and no assertion can fail.
Exit 1: a counterexample was found by the solver and reproduced by the native build (VIOLATION line).
Exit 2: anything else (build failure, budget exhausted, unknown solver answer, irreproducible model, ...).
"""
import glob, json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import irbuild
from checks import CHECKS, ASSUMPTIONS

EVID = os.path.join(HERE, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def say(*a):
    print(*a, flush=True)


def die(msg, code=2):
    say("ERROR: " + msg)
    sys.exit(code)


def read_known(prop):
    """`known: property=<id> harness=<entry> what=<assertion message>` lines."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) what=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def symex(exe, mods, entry, o, work, known):
    out = os.path.join(work, entry)
    for f in glob.glob(out + ".*"):
        os.remove(f)
    cmd = [exe, "--entry", entry, "--out", out, "--time", str(o["time"]), "--workers", str(o.get("workers", 8)),
           "--max-instr", str(o.get("max_instr", 60_000_000)), "--samples", str(o.get("samples", 4)),
           "--sample-every", str(o.get("sample_every", 97))]
    for h, w in known:
        if h == entry or h == "*":
            cmd += ["--known", w]
    p = subprocess.run(cmd + mods, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    parts = []
    for f in sorted(glob.glob(out + ".*")):
        try:
            parts.append(json.load(open(f)))
        except ValueError:
            die("%s: unreadable report %s" % (entry, f))
    if not parts:
        die("%s: the executor ended with status %d and no report\n%s" % (entry, p.returncode, p.stdout[-2000:]))
    t = {"entry": entry, "rc": p.returncode, "workers": len(parts), "violations": [], "errors": [], "known": {}, "samples": [],
         "reach": [0] * 128, "assert_msgs": {}, "hooks": set(), "cov": {}, "solver": parts[0]["solver"]}
    mx = {"max_depth", "max_path_instrs", "max_inputs", "max_objs", "longest_ms", "ms"}
    for d in parts:
        for k, v in d.items():
            if isinstance(v, int) and k not in ("pid", "functions"):
                t[k] = max(t.get(k, 0), v) if k in mx else t.get(k, 0) + v
        for i, v in enumerate(d["reach"]):
            t["reach"][i] += v
        for k, v in d["assert_msgs"].items():
            t["assert_msgs"][k] = t["assert_msgs"].get(k, 0) + v
        t["hooks"] |= set(d["hooks"])
        for k in ("violations", "errors", "samples"):
            t[k] += d[k]
        t["known"].update(d["known"])
        t["functions"] = max(t.get("functions", 0), d["functions"])
        for k, v in d["cov"].items():
            o_ = t["cov"].get(k)
            t["cov"][k] = v if o_ is None else "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(o_, v))
    t["stdout"] = p.stdout[-2000:]
    return t


def write_inputs(path, entry, inputs, comment=""):
    with open(path, "w") as f:
        for l in comment.splitlines():
            f.write("# %s\n" % l)
        f.write("# replay %s <this file>\n" % entry)
        for w, v in inputs:
            f.write("%d %d\n" % (w, v))


def native(exe, entry, path, limit=20):
    try:
        p = subprocess.run([exe, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", [], "no result within %d s" % limit
    logs = [int(l[4:]) for l in p.stdout.splitlines() if l.startswith("log ")]
    tail = (p.stdout.splitlines() or [""])[-1]
    if p.returncode == 0:
        return "ok", logs, tail
    if p.returncode == 3 and "MISMATCH" in p.stdout:
        return "mismatch", logs, tail
    return "fail", logs, "status %d: %s %s" % (p.returncode, tail, p.stderr[-300:].strip())


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    lock = irbuild.locked()
    nat = {}
    variant = spec.get("variant", "tokio")

    def build_nat():
        try:
            nat["dev"] = irbuild.build_native("dev", variant)
        except irbuild.BuildError as e:
            nat["error"] = str(e)

    th = threading.Thread(target=build_nat)
    try:
        th.start()
        exe = irbuild.build_engine()
        mods = irbuild.std_ll() + irbuild.build_ir(variant)
    except irbuild.BuildError as e:
        th.join()
        die(str(e))
    t_build = time.time() - t0
    work = os.path.join(irbuild.CACHE, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    known = read_known(prop)
    results, violation = [], None
    try:
        for entry, o in spec[tier] if tier in spec else spec["quick"]:
            r = symex(exe, mods, entry, o, work, known)
            results.append((r, o))
            say("%s: %d paths, %d left out by assumptions, %d queries (%d ms solver), %.1f s" % (
                entry, r["paths"], r["killed"], r["queries"], r["solver_ms"], r["ms"] / 1000))
            if r["violations"] or r["errors"]:
                break
        th.join()
        if "error" in nat:
            die(nat["error"])
        # A counterexample is believed only when the native build shows it too.
        for r, o in results:
            for v in r["violations"]:
                os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
                path = os.path.join(EVID, "replays", "%s-%s.txt" % (prop, r["entry"]))
                write_inputs(path, r["entry"], v["inputs"], "property %s: %s\nstack: %s" % (prop, v["msg"], " < ".join(v["trace"][:8])))
                st, logs, msg = native(nat["dev"], r["entry"], path, 30 if not v["budget"] else 20)
                say("counterexample in %s: %s" % (r["entry"], v["msg"]))
                say("  native replay: %s %s" % (st, msg))
                ok = st == "hang" or (st == "fail" and not v["budget"])
                if ok:
                    violation = (r, v, path, st, msg)
                    break
                die("%s: the counterexample does not reproduce natively (%s); inputs in %s" % (r["entry"], st, path))
            if violation:
                break
        if violation:
            r, v, path, st, msg = violation
            try:
                rel = irbuild.build_native("release", variant)
                st2, _, msg2 = native(rel, r["entry"], path, 30)
                say("  release replay: %s %s" % (st2, msg2))
            except irbuild.BuildError as e:
                say("  release replay not available")
        else:
            for r, o in results:
                if r["errors"]:
                    die("%s: the executor gave up: %s" % (r["entry"], r["errors"][0]))
                if r["rc"] != 0:
                    die("%s: the executor ended with status %d\n%s" % (r["entry"], r["rc"], r["stdout"]))
                if r["left"]:
                    die("%s: %d states not explored within the time limit" % (r["entry"], r["left"]))
                if r["unknown"]:
                    die("%s: %d unknown solver answers" % (r["entry"], r["unknown"]))
                if r["paths"] == 0:
                    die("%s: no path reaches the end of the harness" % r["entry"])
                for n in o.get("reach", []):
                    if r["reach"][n] == 0:
                        die("%s: situation %d was never reached (vacuous)" % (r["entry"], n))
        # Sampled paths: the translation and the native build must make the same observations.
        validated = 0
        samples = []
        if not violation:
            for r, o in results:
                for i, s in enumerate(r["samples"][: o.get("replay", 24)]):
                    path = os.path.join(work, "s%d" % i)
                    write_inputs(path, r["entry"], s["inputs"])
                    st, logs, msg = native(nat["dev"], r["entry"], path)
                    if st != "ok" or logs != s["logs"]:
                        keep = os.path.join(EVID, "mismatch-%s.txt" % r["entry"])
                        shutil.copy(path, keep)
                        die("%s: native run differs from the symbolic one (%s %s); inputs in %s" % (r["entry"], st, msg, keep))
                    validated += 1
                    if i < 2:
                        samples.append({"harness": r["entry"], "inputs": s["inputs"], "observations": s["logs"][:40]})
        hits = []
        for r, o in results:
            for k, v in r["known"].items():
                path = os.path.join(work, "k")
                write_inputs(path, r["entry"], v["inputs"])
                st, _, msg = native(nat["dev"], r["entry"], path)
                if st in ("fail", "hang"):
                    hits.append("%s: %s" % (r["entry"], k))
        ev = evidence(prop, tier, spec, results, violation, validated, samples, hits, time.time() - t0, t_build)
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    finally:
        th.join()
        shutil.rmtree(work, ignore_errors=True)
    for h in hits:
        say("KNOWN-FINDING: property=%s %s" % (prop, h))
    if violation:
        say("VIOLATION property=%s replay=%s" % (prop, violation[2]))
        sys.exit(1)
    say("%s holds within the bounds: %d paths, %d queries, %.1f s" % (
        prop, sum(r["paths"] for r, _ in results), sum(r["queries"] for r, _ in results), time.time() - t0))


def evidence(prop, tier, spec, results, violation, validated, samples, hits, wall, t_build):
    cov, hooks = {}, set()
    for r, _ in results:
        hooks |= r["hooks"]
        for k, v in r["cov"].items():
            o = cov.get(k)
            cov[k] = v if o is None else "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(o, v))
    blocks = sum(len(v) for v in cov.values())
    hit = sum(v.count("1") for v in cov.values())
    s = lambda k: sum(r.get(k, 0) for r, _ in results)
    return {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": s("paths") + s("killed") + s("forks"),
            "transitions": s("instrs"),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"harness": r["entry"], "counterexample": r["violations"][0]["inputs"]} for r, _ in results if r["violations"]] or ["none"],
            "exhaustive": not violation,
            "explanation": "states: symbolic states made by forking; transitions: LLVM instructions executed symbolically; "
                           "traces validated: paths whose model was run natively with the same observations",
            "paths": s("paths"), "paths_left_out_by_assumptions": s("killed"),
            "assertions_checked": s("asserts"), "assertions_decided_by_folding": s("asserts_const"),
            "queries": s("queries"), "queries_sat": s("sat"), "queries_unsat": s("unsat"), "queries_unknown": s("unknown"),
            "assertion_queries": s("assert_queries"), "branch_queries": s("branch_queries"), "path_queries": s("path_queries"),
            "branches_decided_by_byte_domains": s("presolved"),
            "solver": results[0][0]["solver"], "solver_s": s("solver_ms") / 1000, "longest_query_ms": max(r["longest_ms"] for r, _ in results),
            "functions_encoded": max(r["functions"] for r, _ in results),
            "tower_lsp_functions_encoded": len(cov), "tower_lsp_blocks": blocks, "tower_lsp_blocks_executed": hit,
            "functions": sorted(cov)[:400],
            "modelled_externals": sorted(hooks),
            "bounds": spec["bounds"],
            "harnesses": [{"harness": r["entry"], "paths": r["paths"], "instructions": r["instrs"], "queries": r["queries"],
                           "seconds": r["ms"] / 1000, "symbolic_inputs_max": r["max_inputs"], "longest_path": r["max_path_instrs"],
                           "reached": {str(i): n for i, n in enumerate(r["reach"]) if n}, "assertions": r["assert_msgs"],
                           "about": o.get("about", "")} for r, o in results],
            "known_findings_seen": hits, "build_s": round(t_build, 1),
        },
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": 1 if violation else 0,
    }


if __name__ == "__main__":
    main()
