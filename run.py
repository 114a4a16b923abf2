#!/usr/bin/env python3
"""Runs one check:  run.py ID [quick|thorough]

Builds the symbolic executor, compiles the harness of property ID together with /repo's current
working tree to one LLVM IR module, executes every configured entry point symbolically (z3 decides
every branch and assertion), replays counterexamples and sample paths natively, and writes
evidence/ID.json. Exit 0: held on everything explored; 1: VIOLATION; 2: error of the check."""
import glob, json, os, shutil, subprocess, sys, time, threading, heapq

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
import checks

T0 = time.time()
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CPUS = os.cpu_count() or 4
DEADLINE = T0 + (840 if TIER == "quick" else 4 * 3600)
FEATURE = PID.lower()
BUILD = os.path.join(HERE, "build")
WORK = os.path.join(BUILD, PID)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_INCREMENTAL",
          "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
EVIDENCE = os.path.join(HERE, "evidence", PID + ".json")


def die(msg):
    print("ERROR property=%s %s" % (PID, msg), flush=True)
    sys.exit(2)


def cargo(args, target, cwd):
    e = dict(ENV, CARGO_TARGET_DIR=target)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def refused(out):
    """The declarations of this check are what the property is about: when the compiler refuses what is
    derived for them while it still accepts a harness without declarations, no value of theirs is written
    or read at all. (There is no program to execute symbolically then; the replay is the compilation.)"""
    args = ["check", "--offline", "--lib", "--features"]
    if cargo(args + ["c02"], WORK + "/control", HERE + "/harness")[0] != 0:
        return
    if cargo(args + [FEATURE], WORK + "/control", HERE + "/harness")[0] == 0:
        return
    errors = [l for l in out.splitlines() if l.startswith("error[E")]
    if not errors:
        return
    path = os.path.join(HERE, "evidence", "%s-counterexample.txt" % PID)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("property %s is violated: what is derived for the declarations in harness/src/%s.rs does not compile\n" % (PID, FEATURE))
        f.write("replay: cd %s/harness && cargo check --offline --lib --features %s\n\n%s\n" % (HERE, FEATURE, out[-20000:]))
    ev = {"property": PID, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": errors[:5],
                       "explanation": "nothing was executed: what is derived for the declarations does not compile"},
          "assumptions": checks.ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": 1}
    with open(EVIDENCE, "w") as f:
        json.dump(ev, f, indent=1)
    print("%d errors, the first: %s" % (len(errors), errors[0]))
    print("VIOLATION property=%s replay=%s" % (PID, path), flush=True)
    os._exit(1)


def build():
    """Engine, IR of the harness and native replayer; all three at the same time."""
    os.makedirs(WORK, exist_ok=True)
    res = {}

    def engine():
        res["engine"] = cargo(["build", "--release", "--offline", "--manifest-path", HERE + "/engine/Cargo.toml"],
                              BUILD + "/engine", HERE)

    def forget(target):
        # always regenerate what depends on /repo
        for pat in ("harness*", "libharness*", "serdere*", "libserdere*"):
            for sub in (".fingerprint", "deps"):
                for f in glob.glob(os.path.join(target, sub, pat)):
                    shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)

    def ir():
        t = WORK + "/ir"
        forget(t + "/release")
        res["ir"] = cargo(["rustc", "--release", "--offline", "--lib", "--features", FEATURE, "--crate-type", "staticlib",
                           "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], t,
                          HERE + "/harness")

    def replay():
        t = WORK + "/replay"
        forget(t + "/debug")
        res["replay"] = cargo(["build", "--offline", "--bin", "replay", "--features", FEATURE], t, HERE + "/harness")

    th = [threading.Thread(target=f) for f in (engine, ir, replay)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    for k, (rc, out) in res.items():
        if rc != 0:
            print(out[-6000:])
            if k != "engine" and "derive" in checks.CHECKS[PID].get("declares", ""):
                refused(out)
            die("building the %s failed" % k)
    lls = glob.glob(WORK + "/ir/release/deps/harness-*.ll")
    if len(lls) != 1:
        die("expected one IR module, found %r" % lls)
    return lls[0]


ENGINE = BUILD + "/engine/release/engine"
REPLAY = WORK + "/replay/debug/replay"


def replay(lines, limit=20, wrap=None):
    """Runs the given (entry, params, vals) natively; gives (outcome, obs, msg) for each."""
    if not lines:
        return []
    inp = "".join("%s|%s|%s\n" % (e, ",".join(map(str, p)), " ".join(map(str, v))) for e, p, v in lines)
    r = subprocess.run((wrap or []) + [REPLAY, str(limit)], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, env=dict(ENV, RUST_BACKTRACE="0"))
    out = [x.split("|", 2) for x in r.stdout.splitlines()]
    if len(out) != len(lines):
        die("the native replayer gave %d answers to %d questions: %s" % (len(out), len(lines), r.stderr[-2000:]))
    return [(o[0], [int(x) for x in o[1].split()], o[2] if len(o) > 2 else "") for o in out]


def replay_all(lines):
    """The same, on all cores."""
    if len(lines) < 64:
        return replay(lines)
    parts = [lines[i::CPUS] for i in range(CPUS)]
    res = [None] * CPUS

    def one(i):
        res[i] = replay(parts[i])
    th = [threading.Thread(target=one, args=(i,)) for i in range(CPUS)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    if any(r is None for r in res):
        die("native replay failed")
    out = [None] * len(lines)
    for i in range(CPUS):
        out[i::CPUS] = res[i]
    return out


def main():
    chk = checks.CHECKS[PID]
    jobs = []
    for j in chk["quick"] + (chk.get("thorough", []) if TIER == "thorough" else []):
        jobs.append(dict(j))
    if TIER == "thorough":
        # a thorough job replaces quick jobs it names
        drop = set()
        for j in jobs:
            drop.update(j.get("replaces", []))
        jobs = [j for j in jobs if j.get("name") not in drop]
    try:
        os.unlink(EVIDENCE)
    except FileNotFoundError:
        pass
    ll = build()
    t_build = time.time() - T0
    jobs.sort(key=lambda j: -j.get("cost", 1))
    running, done, todo = [], [], list(enumerate(jobs))
    confirmed = None
    problems = []
    mismatch = []
    nsamples = 0
    while (todo or running) and not confirmed:
        while todo and len(running) < CPUS:
            i, j = todo.pop(0)
            out = "%s/job%d.json" % (WORK, i)
            if os.path.exists(out):
                os.unlink(out)
            left = max(5, DEADLINE - time.time())
            cmd = [ENGINE, "--ir", ll, "--entry", j["entry"], "--params", ",".join(map(str, j.get("params", []))),
                   "--time", str(int(min(left, j.get("time", 10 ** 6)))), "--out", out, "--seed", str(SEED),
                   "--samples", str(j.get("samples", 24)), "--max-violations", "3"]
            if j.get("split"):
                cmd += ["--split", "1"]
            if "max_steps" in j:
                cmd += ["--max-steps", str(j["max_steps"])]
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))
            running.append((i, j, p, out))
        time.sleep(0.02)
        for r in list(running):
            i, j, p, out = r
            if p.poll() is None:
                if time.time() > DEADLINE + 20:
                    p.kill()
                continue
            running.remove(r)
            if p.returncode != 0 or not os.path.exists(out):
                problems.append("%s%r: the engine ended with %s: %s" % (j["entry"], j.get("params", []), p.returncode,
                                                                     open(out + ".err").read()[-1500:]))
                continue
            res = json.load(open(out))
            res["job"] = j
            res["params"] = j.get("params", [])
            done.append(res)
            for v in res["violations"]:
                line = (j["entry"], res["params"], v["vals"])
                lim = j.get("hang_s", 30)
                o = replay([line], lim)[0]
                how = "native run"
                if o[0] not in ("violation", "crash", "hang", "starved") and v["kind"] == "memory":
                    o2 = subprocess.run(["valgrind", "-q", "--error-exitcode=9", "--trace-children=yes", REPLAY, "60"],
                                        input="%s|%s|%s\n" % (line[0], ",".join(map(str, line[1])), " ".join(map(str, line[2]))),
                                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                    if "Invalid " in o2.stderr or "uninitialised" in o2.stderr:
                        o = ("memory", [], o2.stderr.splitlines()[0])
                        how = "native run under valgrind"
                if o[0] in ("violation", "crash", "hang", "memory"):
                    confirmed = (line, v, o, how)
                    break
                problems.append("%s%r: counterexample (%s: %s) %r does not reproduce natively (%s %s); trace %r" % (
                    j["entry"], res["params"], v["kind"], v["msg"], v["vals"], o[0], o[2], v["trace"][:8]))
            if confirmed:
                break
            if res["incomplete"]:
                problems.append("%s%r: not finished: %s" % (j["entry"], res["params"], res["incomplete"]))
            if res["unknown"]:
                problems.append("%s%r: %d queries without an answer" % (j["entry"], res["params"], res["unknown"]))
            if not res["outcomes"].get("end", 0) + res["outcomes"].get("panic", 0) + sum(
                    v for k, v in res["outcomes"].items() if k.startswith("known")):
                problems.append("%s%r: no execution reaches the end (vacuous)" % (j["entry"], res["params"]))
            smp = res["samples"] + list(res["known"].values())
            got = replay_all([(j["entry"], res["params"], s["vals"]) for s in smp])
            nsamples += len(smp)
            for s, g in zip(smp, got):
                want = s["outcome"]
                if g[0] != want or (want == "end" and g[1] != [int(x) for x in s["obs"]]):
                    mismatch.append("%s%r: symbolic run says %s %r, native run says %s %r %s, on %r" % (
                        j["entry"], res["params"], want, s["obs"], g[0], g[1], g[2], s["vals"]))
    for _, _, p, _ in running:
        p.kill()
    # ---- verdict ----
    covers = set()
    known = {}
    for r in done:
        covers.update((r["job"]["entry"], c) for c in r["covers"])
        for k, s in r["known"].items():
            known.setdefault(int(k), (r["job"]["entry"], r["params"], s["vals"]))
    findings = {}
    for f in json.load(open(HERE + "/known_findings.json"))["findings"]:
        if f["property"] == PID:
            findings[f["id"]] = f
    if not confirmed:
        for k, line in known.items():
            if k not in findings:
                confirmed = (line, {"kind": "known", "msg": "finding %d is not listed" % k, "trace": []}, ("", [], ""), "native run")
        want = set()
        for j in jobs:
            for c in j.get("covers", chk.get("covers", {}).get(j["entry"], [])):
                want.add((j["entry"], c))
        for e, c in sorted(want - covers):
            problems.append("%s: cover point %d is never reached (vacuous)" % (e, c))
        problems += mismatch[:5]
    tot = lambda k: sum(r[k] for r in done)
    outcomes = {}
    for r in done:
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    funcs = sorted(set(f for r in done for f in r["functions"]))
    own = [f for f in funcs if "serdere" in f or "harness" in f]
    samples = []
    for r in done:
        for s in r["samples"][:1]:
            samples.append({"entry": r["job"]["entry"], "params": r["params"], "inputs": s["vals"][:40], "outcome": s["outcome"],
                            "observed": s["obs"][:40], "instructions": s["steps"]})
    ev = {
        "property": PID, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"),
            "traces_validated_against_impl": nsamples - len(mismatch),
            "samples": samples[:12],
            "explanation": "states = symbolic execution paths explored to their end (each stands for all inputs that satisfy its "
                           "path condition); transitions = LLVM instructions executed symbolically; "
                           "traces_validated_against_impl = solver models of paths replayed natively with equal outcome and "
                           "observed values",
            "exhaustive": not problems and not confirmed,
            "path_outcomes": outcomes,
            "solver": {"name": "z3 4.8.12 (libz3)", "queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"),
                       "unknown": tot("unknown"), "answered_from_cache": tot("query_cache_hits"),
                       "single_variable_queries_cross_checked_by_truth_table": tot("unary"),
                       "float_refinements": tot("refinements"), "seconds": round(tot("solver_s"), 2),
                       "slowest_query_s": max([r["max_query_s"] for r in done] or [0])},
            "assertions": {"reached": tot("asserts"), "decided_by_solver": tot("asserts_solver"),
                           "constant_on_path": tot("asserts_const")},
            "bounds": chk["bounds"],
            "outside_bounds": chk.get("outside", []),
            "stubs": checks.STUBS + chk.get("stubs", []),
            "jobs": [{"entry": r["job"]["entry"], "params": r["params"], "what": r["job"].get("what", ""), "paths": r["paths"],
                      "instructions": r["steps"], "queries": r["queries"], "wall_s": r["wall_s"],
                      "longest_path": r["max_path_steps"]} for r in done],
            "functions_encoded": len(funcs),
            "functions_encoded_serdere": [f[:160] for f in own][:400],
            "build_s": round(t_build, 1),
        },
        "assumptions": checks.ASSUMPTIONS + chk.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if confirmed else 0,
    }
    if problems:
        ev["coverage"]["problems"] = [p[:1500] for p in problems[:20]]
    os.makedirs(os.path.dirname(EVIDENCE), exist_ok=True)
    with open(EVIDENCE, "w") as f:
        json.dump(ev, f, indent=1)
    if confirmed:
        line, v, o, how = confirmed
        path = os.path.join(HERE, "evidence", "%s-counterexample.txt" % PID)
        with open(path, "w") as f:
            f.write("property %s is violated: %s: %s\n" % (PID, v["kind"], v["msg"]))
            f.write("confirmed by a %s: %s %s\n" % (how, o[0], o[2]))
            f.write("replay: echo '%s|%s|%s' | %s\n" % (line[0], ",".join(map(str, line[1])), " ".join(map(str, line[2])), REPLAY))
            f.write("entry: %s (see harness/src/%s.rs)\nparameters: %r\ninputs: %r\n" % (line[0], FEATURE, line[1], line[2]))
            f.write("symbolic call stack:\n  %s\n" % "\n  ".join(v["trace"][:30]))
        print("%s: %s (%s)" % (line[0], v["msg"], o[2]))
        print("VIOLATION property=%s replay=%s" % (PID, path), flush=True)
        os._exit(1)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (PID, findings[k]["what"]))
    if problems:
        for p in problems[:12]:
            print(p)
        die("%d problems (see above)" % len(problems))
    print("%s held on everything explored: %d paths, %d instructions, %d queries (%.1f s in the solver), %d traces validated, %.1f s" % (
        PID, tot("paths"), tot("steps"), tot("queries"), tot("solver_s"), nsamples, time.time() - T0))


main()
