#!/usr/bin/env python3
"""Driver of the checks: builds the harnesses of one property from /repo's current working tree, explores the
bounded space exhaustively, replays what failed, and writes /verif/evidence/<id>.json.

  vp.py <ID> [--tier quick|thorough]     run the check (exit 0: held, 1: VIOLATION printed, 2: could not run)
  vp.py <ID> --replay <file>             re-run the case(s) recorded in a replay file
  vp.py --setup                          check that the tools are there
"""
import argparse, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks_cfg import CHECKS, HARNESSES  # noqa: E402

CXX = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
BASE_FLAGS = ["-std=c++20", "-O1", "-g0", "-w", "-pthread", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_ASSERTIONS",
              "-D_USE_MATH_DEFINES", "-DBOOST_THREAD_VERSION=5", "-DBOOST_ALLOW_DEPRECATED_HEADERS",
              "-DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL", "-DMM2_LINUX"]


def ninja_file(name, h):
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    flags = BASE_FLAGS + h.get("flags", [])
    flags += [f"-I{VERIF}/lib", f"-I{VERIF}/harness"]
    if h.get("stub_csv"):
        flags += [f"-I{VERIF}/stub"]
    flags += [f"-I{REPO}/src/library/include", f"-I{REPO}/src/app/include"]
    out = [f"builddir = {d}", "rule cxx", f"  command = {CXX} -MMD -MF $out.d {' '.join(flags)} $x -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc", "rule link",
           f"  command = {CXX} -pthread {' '.join(h.get('flags', []))} $in -o $out {' '.join(h.get('libs', []))}"]
    objs = []
    srcs = []
    for s in h["src"]:      # a name, or a name and flags of its own (the same file may be built several times)
        srcs.append((os.path.join(VERIF, "harness", s), "") if isinstance(s, str) else (os.path.join(VERIF, "harness", s[0]), s[1]))
    for s in h.get("repo_src", []):
        x = ""
        if isinstance(s, (list, tuple)):
            s, x = s
        srcs.append((os.path.join(REPO, s), x))
    for s, x in srcs:
        o = os.path.join(d, re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(s, "/") + (" " + x if "-DPART" in x else "")) + ".o")
        objs.append(o)
        out += [f"build {o}: cxx {s}", f"  x = {x}"]
    exe = os.path.join(d, name)
    out += [f"build {exe}: link {' '.join(objs)}", f"default {exe}", ""]
    p = os.path.join(d, "build.ninja")
    txt = "\n".join(out)
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return p, exe


def build(names):
    exes, procs = {}, []
    for n in names:
        p, exe = ninja_file(n, HARNESSES[n])
        exes[n] = exe
        procs.append((n, subprocess.Popen(["ninja", "-f", p, "-j", "8"], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    ok = True
    for n, pr in procs:
        o, _ = pr.communicate()
        if pr.returncode != 0:
            ok = False
            print(f"BUILD FAILED for harness {n}:\n{o[-6000:]}")
    return exes if ok else None


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(prop, f):
    for k in load_known():
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if re.search(k["match"], f"{f['suite']}|{f['desc']}|{f['msg']}"):
            return k
    return None


def harness_cmd(exe, tier, extra):
    return [exe, "--tier", tier] + extra


def run_alone(exe, tier, f, tmp, args=(), limit=150):
    """Replay one case in a fresh process; returns (reproduced, text)."""
    try:
        r = subprocess.run(harness_cmd(exe, tier, ["--only", f"{f['suite']}:{f['ordinal']}", "--out", tmp, "--hang", str(limit - 20)] + list(args)),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + 100)
    except subprocess.TimeoutExpired:
        return True, "hang: the case did not finish when run alone"
    desc = re.search(r"^CASE \S+ (.*)$", r.stderr, re.M)
    if desc and not f.get("desc"):
        f["desc"] = desc.group(1)
    return r.returncode not in (0, 3), r.stderr[-3000:]


def run_prefix(exe, tier, f, jobs, tmp, args=()):
    r = subprocess.run(harness_cmd(exe, tier, ["--upto", f"{f['suite']}:{f['ordinal']}", "--shard", str(f["shard"]),
                                               "--jobs", str(jobs), "--out", tmp] + list(args)), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
    try:
        j = json.load(open(tmp))
    except Exception:
        return True
    return any(x["suite"] == f["suite"] and x["ordinal"] == f["ordinal"] for x in j["fails"]) or bool(j["crashes"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--suite")
    a = ap.parse_args()
    if a.setup:
        for t in (CXX, "ninja"):
            subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        print("setup ok")
        return 0
    prop = a.id
    cfg = CHECKS[prop]
    t0 = time.time()
    exes = build(cfg["harness"])
    if exes is None:
        return 2
    tb = time.time() - t0
    work = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            bad = False
            for f in rep["cases"]:
                b, txt = run_alone(exes[f["harness"]], rep["tier"], f, os.path.join(work, "r"), cfg.get("args", {}).get(f["harness"], []))
                print(txt)
                bad |= b
            return 1 if bad else 0
        results, fails = {}, []
        for n in cfg["harness"]:
            out = os.path.join(work, n + ".json")
            extra = ["--out", out, "--jobs", str(a.jobs)] + cfg.get("args", {}).get(n, [])
            if a.suite:
                extra += ["--suite", a.suite]
            r = subprocess.run(harness_cmd(exes[n], a.tier, extra), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               text=True, errors="replace", cwd=work)
            if not os.path.exists(out):
                print(f"harness {n} produced no result (exit {r.returncode})\n{r.stderr[-3000:]}")
                return 2
            results[n] = json.load(open(out))
            for f in results[n]["fails"] + results[n]["crashes"]:
                f["harness"] = n
                fails.append(f)
        new, known = [], {}
        tried, tr = 0, time.time()
        for f in fails:
            k = known_match(prop, f)
            if k:
                known[k["match"]] = k
                continue
            hang = "hang" in f["msg"]
            if tried < 4 and not (new and (hang or time.time() - tr > 40)):
                tried += 1
                ok, txt = run_alone(exes[f["harness"]], a.tier, f, os.path.join(work, "r"), cfg.get("args", {}).get(f["harness"], []),
                                    limit=80 if hang else 150)
                f["replay_mode"] = "alone"
                f["replay_output"] = txt
                if not ok:
                    ok = run_prefix(exes[f["harness"]], a.tier, f, a.jobs, os.path.join(work, "rp"), cfg.get("args", {}).get(f["harness"], []))
                    f["replay_mode"] = "prefix"
                if not ok:
                    print(f"WARNING: not reproducible, ignored: {f['suite']}:{f['ordinal']} {f['desc']} {f['msg']}")
                    continue
                k = known_match(prop, f)
                if k:
                    known[k["match"]] = k
                    continue
            elif not new:
                continue
            new.append(f)
        wall = time.time() - t0
        tot = lambda key: sum(r[key] for r in results.values())
        cov = {
            "states": tot("states"), "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("cases"),
            "evaluations": tot("cases"), "distinct_nontrivial": tot("outcomes"),
            "rule": cfg["rule"],
            "distinct_outcomes": tot("outcomes"), "nontrivial_cases": tot("nontrivial"),
            "samples": [s for r in results.values() for s in r["samples"]][:24] or ["none"],
            "exhaustive": not any(r["capped"] for r in results.values()) and not a.suite and not fails,
            "cases_per_suite": {f"{n}/{k}": v for n, r in results.items() for k, v in r["suites"].items()},
            "counters": {k: v for r in results.values() for k, v in r["counters"].items()},
            "bounds": cfg["bounds"].get(a.tier, cfg["bounds"].get("quick")),
            "build_s": round(tb, 1),
        }
        level = cfg.get("level", "model_checking")
        if level == "model_checking":
            del cov["evaluations"], cov["distinct_nontrivial"]
        else:
            del cov["states"], cov["traces_validated_against_impl"]
        ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
              "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k in known.values():
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        print(f"{prop} {a.tier}: cases={tot('cases')} states={tot('states')} transitions={tot('transitions')} "
              f"outcomes={tot('outcomes')} build={tb:.1f}s wall={wall:.1f}s")
        for n, r in results.items():
            print("  ", n, r["suites"], r["counters"])
        if new:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{prop}.json")
            json.dump({"property": prop, "tier": a.tier, "cases": new,
                       "how": f"python3 {VERIF}/vp.py {prop} --replay {rp}"}, open(rp, "w"), indent=1)
            for f in new[:5]:
                print(f"  failed {f['suite']}:{f['ordinal']} [{f.get('replay_mode', 'not replayed')}] {f['desc'][:600]}\n    {f['msg'][:800]}")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        # vacuity guard: an exploration that visited nothing is an error of the check, not a pass
        if tot("cases") == 0 or tot("outcomes") < 2:
            print("vacuous exploration")
            return 2
        return 0
    finally:
        subprocess.run(["find", work, "-delete"])


if __name__ == "__main__":
    sys.exit(main())
