#!/usr/bin/env python3
"""check.py ID [quick|thorough] - decide one property of /repo by symbolic execution of its LLVM IR.

1. compile /repo's current source (crates/ebi) with the property's harnesses to one LLVM module;
2. execute every harness symbolically (engine/irsym), z3 deciding each branch and assertion;
3. replay counterexamples, and models sampled from completed paths, on the natively compiled code;
4. write evidence/ID.json. Exit 0 held, 1 VIOLATION, 2 no answer.
"""
import collections, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, ".build")
LEVEL = "model_checking"
T0 = time.time()


def sh(cmd, cwd, env=None, log=None, timeout=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    if log:
        with open(log, "w") as f:
            f.write(out)
    return p.returncode, out


def popen(cmd, cwd, env, log):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env)
    return subprocess.Popen(cmd, cwd=cwd, env=e, stdout=open(log, "w"), stderr=subprocess.STDOUT)


def die(msg):
    print("NO-ANSWER: " + msg)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    roots = [REPO + "/ebi/src", REPO + "/tools/src", REPO + "/experimenter/src", V + "/stubs", V + "/harness/src", V + "/crates", V + "/engine/src"]
    for r in roots:
        for d, dn, fn in sorted(os.walk(r)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


TOOL = {"RUSTUP_TOOLCHAIN": "1.87.0", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0"}


def engine_start():
    return popen(["cargo", "build", "--release", "--offline"], V + "/engine", dict(TOOL, CARGO_TARGET_DIR=B + "/engine"), B + "/engine.log")


def clean_fingerprints():
    for pat in ("ir/release", "native/replay"):
        for p in ("ebi-*", "vpharness-*"):
            for d in glob.glob(f"{B}/{pat}/.fingerprint/{p}"):
                shutil.rmtree(d, ignore_errors=True)


def compile_both(feat):
    """Builds the LLVM module, the native replay binary and the engine; returns (what failed, log tail) or None."""
    eng = engine_start()
    ir = popen(["cargo", "rustc", "--offline", "--release", "--features", feat, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"],
               V + "/harness", dict(TOOL, CARGO_TARGET_DIR=B + "/ir"), B + "/ir.log")
    nat = popen(["cargo", "build", "--offline", "--profile", "replay", "--features", feat + ",native"], V + "/harness", dict(TOOL, CARGO_TARGET_DIR=B + "/native"), B + "/native.log")
    bad = None
    for name, p in (("engine", eng), ("ir", ir), ("native", nat)):
        if p.wait() != 0 and not bad:
            bad = (name, "".join(open(f"{B}/{name}.log").readlines()[-40:]))
    return bad


def build(pid):
    """Returns (ll, native binary); both are rebuilt whenever the source content differs."""
    os.makedirs(B, exist_ok=True)
    feat = pid.lower()
    run = f"{B}/run/{pid}"
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        hf = B + "/srchash"
        old = open(hf).read() if os.path.exists(hf) else ""
        if old != h:
            clean_fingerprints()
            if os.path.exists(hf):
                os.remove(hf)
        for f in glob.glob(B + "/ir/release/deps/vpharness-*"):
            os.remove(f)
        for d in glob.glob(B + "/ir/release/.fingerprint/vpharness-*"):
            shutil.rmtree(d, ignore_errors=True)
        api_only = False
        bad = compile_both(feat)
        if bad and bad[0] != "engine" and os.path.exists(f"{V}/harness/src/{feat}i.rs"):
            api_only = True
            bad = compile_both(feat + ",apionly")
        if bad:
            die(f"building {bad[0]} failed:\n{bad[1]}")
        lls = glob.glob(B + "/ir/release/deps/vpharness-*.ll")
        if len(lls) != 1:
            die(f"expected one LLVM module, found {lls}")
        os.rename(lls[0], run + "/m.ll")
        shutil.copy2(B + "/native/replay/vpharness", run + "/native")
        with open(hf, "w") as f:
            f.write(h)
    return run, run + "/m.ll", run + "/native", api_only


def harness_names(pid, part=""):
    src = open(f"{V}/harness/src/{pid.lower()}{part}.rs").read()
    names = re.findall(r"^\s*fn (" + pid.lower() + r"[a-z]?_\w+)\(\)", src, re.M)
    bounds = re.findall(r"^//! (?:BOUNDS|OUTSIDE): .*$", src, re.M)
    return names, [b[4:] for b in bounds]


def replay(native, h, draws):
    arg = ",".join(d[1] for d in draws)
    try:
        p = subprocess.run([native, h, arg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
    except subprocess.TimeoutExpired:
        return "timeout", "", []
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"^VPRESULT (.*) obs=(.*)$", out, re.M)
    if not m:
        return f"crashed rc={p.returncode}", p.stderr.decode("utf-8", "replace")[-400:], []
    kind = m.group(1)
    return kind.split(" ")[0], kind, [x for x in m.group(2).split(",") if x]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    names, bounds = harness_names(pid)
    if os.path.exists(f"{V}/harness/src/{pid.lower()}i.rs"):
        names = names + harness_names(pid, "i")[0]
    lo = pid.lower()
    hs = [n for n in names if n.startswith(lo + "_")] + [n for n in names if n.startswith(lo + "k_")]
    if tier == "thorough":
        hs += [n for n in names if n.startswith(lo + "t_")]
    if os.environ.get("VP_ONLY"):
        hs = [n for n in hs if re.search(os.environ["VP_ONLY"], n)]
    budget = float(os.environ.get("VP_BUDGET", "780" if tier == "quick" else "21600"))
    run, ll, native, api_only = build(pid)
    if api_only:
        internal = harness_names(pid, "i")[0]
        hs = [h for h in hs if h not in internal]
        bounds = bounds + ["internal entry points no longer exist in /repo: their harnesses were left out"]
    t_build = time.time() - T0
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == pid]
    out = run + "/out"
    cmd = [B + "/engine/release/irsym", "--ll", ll, "--out", out, "--jobs", str(os.cpu_count() or 8), "--timeout", str(max(30, budget - t_build)), "--query-timeout-ms", os.environ.get("VP_QT", "60000" if tier == "quick" else "600000"), "--samples", "24"] + hs
    rc, log = sh(cmd, V, env={"VP_CONFIRM": "1"} if tier == "thorough" and not os.environ.get("VP_ONLY") else {}, log=run + "/irsym.log")
    R = collections.defaultdict(list)
    for f in glob.glob(out + "/*.json"):
        j = json.load(open(f))
        R[j["harness"]].append(j)
    tot = collections.Counter()
    funcs, covers = set(), collections.Counter()
    per = {}
    no_answer, violations, known_hit, samples = [], [], [], []
    validated = mism = 0
    maxq = 0.0
    if rc != 0:
        no_answer.append(f"engine exit {rc}: {log[-600:]}")
    for h in hs:
        js = R.get(h, [])
        if not js:
            no_answer.append(f"{h}: no report")
            continue
        c = collections.Counter()
        inc = collections.Counter()
        for j in js:
            for k in ("paths", "infeasible", "allowed_panics", "checks", "checks_trivial", "steps", "forks", "pending", "merges", "queries", "cache_hits", "model_hits", "sat", "unsat", "unknown", "fp_queries", "finite", "solver_seconds"):
                c[k] += j[k]
            maxq = max(maxq, j["max_query_seconds"])
            funcs.update(j["functions"])
            covers.update(j["covers"])
            inc.update(j["incomplete"])
        tot.update(c)
        per[h] = {k: (round(c[k], 3) if isinstance(c[k], float) else c[k]) for k in ("paths", "infeasible", "allowed_panics", "checks", "checks_trivial", "queries", "finite", "solver_seconds", "steps")}
        viol = [j["violation"] for j in js if "violation" in j]
        confirmed = None
        for v in viol:
            kind, text, obs = replay(native, h, v["draws"])
            reproduced = kind in ("check-failed", "panic", "timeout") or kind.startswith("crashed")
            if not reproduced:
                no_answer.append(f"{h}: symbolic counterexample {v['kind']} [{v['msg']}] draws {v['draws']} stack {v['stack'][:5]} was not reproduced natively ({text})")
                continue
            confirmed = dict(harness=h, kind=v["kind"], msg=v["msg"], stack=v["stack"], draws=v["draws"], native=text)
            break
        if confirmed:
            k = next((k for k in known if k["harness"] == h and k["match"] in confirmed["msg"] + " | " + confirmed["native"]), None)
            if k:
                known_hit.append(k)
                per[h]["known_finding"] = k["what"]
            else:
                violations.append(confirmed)
                per[h]["violation"] = confirmed["msg"]
        elif not viol:
            if c["pending"] or inc or c["unknown"] and inc:
                no_answer.append(f"{h}: incomplete: {dict(inc.most_common(4))}, {c['pending']} paths pending")
            if c["paths"] == 0 and c["allowed_panics"] == 0:
                no_answer.append(f"{h}: no path reached the end (vacuous)")
            n = 0
            for j in js:
                for s in j["samples"]:
                    if n >= 40:
                        break
                    n += 1
                    kind, text, obs = replay(native, h, s["draws"])
                    if kind == "ok" and obs == s["obs"]:
                        validated += 1
                        if len([x for x in samples if x["harness"] == h]) < 2:
                            samples.append({"harness": h, "draws": [d[1] for d in s["draws"]], "observed": obs[:16]})
                    else:
                        mism += 1
                        no_answer.append(f"{h}: path model disagrees with the native run: {text} draws={s['draws'][:12]} obs={obs[:8]} engine={s['obs'][:8]}")
    wall = time.time() - T0
    repo_funcs = sorted(f for f in funcs if "ebi::" in f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(wall, 2), "violations": len(violations),
        "coverage": {
            "states": tot["paths"] + tot["infeasible"] + tot["allowed_panics"] + tot["forks"],
            "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": samples[:24],
            "states_rule": "symbolic states: completed paths, infeasible paths and fork points; transitions: LLVM instructions executed symbolically",
            "completed_paths": tot["paths"], "merged_branches": tot["merges"],
            "assertions_checked": tot["checks"], "assertions_decided_by_term_rewriting": tot["checks_trivial"],
            "smt_queries": tot["queries"], "smt_sat": tot["sat"], "smt_unsat": tot["unsat"], "smt_unknown": tot["unknown"], "smt_fp_queries": tot["fp_queries"], "queries_decided_by_value_tables": tot["finite"],
            "query_cache_hits": tot["cache_hits"], "model_reuse_hits": tot["model_hits"],
            "solver_seconds": round(tot["solver_seconds"], 2), "slowest_query_seconds": maxq, "build_seconds": round(t_build, 1),
            "solver": "z3-new (SMT-LIB over a pipe)",
            "functions_encoded": repo_funcs, "functions_encoded_total": len(funcs),
            "bounds": bounds, "harnesses": per, "covers": dict(covers),
            "known_findings_reproduced": [k["what"] for k in known_hit],
            "no_answer": no_answer,
        },
        "assumptions": ["rustc/LLVM lowering of /repo's source to the IR executed here", "z3 verdicts", "contract stubs for zstd, flate2, snap and ALP (decode inverts encode)", "allocation never fails; the clock is monotonic"],
    }
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for h in per:
        print(f"{h}: {per[h]}")
    print(f"{pid} {tier}: {tot['paths']} paths, {tot['checks']} assertions, {tot['queries']} queries, solver {tot['solver_seconds']:.1f}s, {validated} traces validated, build {t_build:.1f}s, wall {wall:.1f}s")
    for k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for x in no_answer:
        print("NO-ANSWER: " + x)
    for v in violations:
        p = f"{V}/evidence/replay/{pid}-{v['harness']}.json"
        with open(p, "w") as f:
            json.dump(dict(v, command=f"{native} {v['harness']} {','.join(d[1] for d in v['draws'])}"), f, indent=1)
        print(f"  {v['harness']}: {v['kind']}: {v['msg']} | native: {v['native']} | draws {[d[1] for d in v['draws']]}")
        print(f"VIOLATION property={pid} replay={p}")
    sys.exit(1 if violations else 2 if no_answer else 0)


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        os.makedirs(B, exist_ok=True)
        p = engine_start()
        sys.exit(p.wait())
    main()
