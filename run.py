#!/usr/bin/env python3
"""Build and run one check: run.py <property> <tier>. See DESIGN.md."""
import hashlib, json, os, signal, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
PROFILES = ["chk", "rel"]
LIMIT = {"quick": 700, "thorough": 4 * 3600}

LEVELS = {"C12": "fault_enumeration"}
RULES = {
    "C12": "every (shape type, state, operation, callback kind, k): the operation is run on a fresh copy "
           "of the state with the k-th user callback panicking, for every k the operation reaches; "
           "non-trivial = the injected panic was actually raised and propagated",
}


def error(msg):
    print(f"ERROR: {msg}")
    sys.exit(2)


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    for top in ("Cargo.toml", "src"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build(bins, features=()):
    """Build the binaries in both profiles from the current working tree of the repository."""
    stamp = tree_hash()
    procs = []
    for profile in PROFILES:
        d = os.path.join(TARGET, profile)
        os.makedirs(d, exist_ok=True)
        sf = os.path.join(d, ".repo_hash")
        old = open(sf).read() if os.path.exists(sf) else ""
        if old != stamp:
            # Never trust modification times: force a rebuild when the contents changed.
            fp = os.path.join(d, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith(("mdarray-", "mc-")):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            open(sf, "w").write(stamp)
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path",
               os.path.join(VERIF, "mc", "Cargo.toml"), "--profile", profile]
        cmd += [x for b in bins for x in ("--bin", b)] or ["--lib"]
        for f in features:
            cmd += ["--features", f]
        procs.append((profile, subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE,
                                                stderr=subprocess.STDOUT)))
    ok = True
    for profile, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            print(f"build failed ({profile}):\n" + out.decode(errors="replace")[-6000:])
    return ok


SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def run_child(binary, tier, deadline, extra=None):
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "out.json")
        e = dict(os.environ, MC_OUT=out, RUST_BACKTRACE="0", **(extra or {}))
        p = subprocess.Popen([binary, tier], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            text, _ = p.communicate(timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            text, _ = p.communicate()
            return None, "timeout", text.decode(errors="replace")
        report = json.load(open(out)) if os.path.exists(out) else None
        return report, p.returncode, text.decode(errors="replace")


def explore(prop, profile, tier, deadline):
    """Returns (report or None, failures)."""
    binary = os.path.join(TARGET, profile, prop.lower())
    report, rc, text = run_child(binary, tier, deadline)
    if rc == 0 and report is not None:
        return report, report["failures"], report["nfailures"]
    if rc == "timeout":
        error(f"{prop} ({profile}) ran out of time")
    crashed = isinstance(rc, int) and rc < 0 and -rc in SIGNALS
    if not crashed and rc != 71:
        error(f"{prop} ({profile}) ended with {rc}\n{text[-3000:]}")
    what = "the process does not finish a single case" if rc == 71 else \
        f"the process is killed by {signal.Signals(-rc).name}"
    what += "; output: " + text.strip()[-600:]
    # Run again, recording the case each worker is in.
    with tempfile.TemporaryDirectory() as tmp:
        report, rc2, _ = run_child(binary, tier, deadline, {"MC_TRACE": tmp})
        cases = []
        if rc2 != 0:
            for n in sorted(os.listdir(tmp)):
                c = open(os.path.join(tmp, n), errors="replace").read().strip()
                if c:
                    cases.append(c)
        # Try each of them alone.
        guilty = []
        for c in cases:
            if time.time() > deadline - 60:
                break
            _, rc3, _ = run_child(binary, tier, deadline, {"MC_ONLY": c, "MC_HANG": "20"})
            if rc3 == 71 or (isinstance(rc3, int) and rc3 < 0):
                guilty.append(c)
        cases = guilty or cases
        failures = [{"case": c, "detail": what} for c in cases] or [{"case": "(unknown case)", "detail": what}]
        if rc2 == 0 and report is not None:
            failures += report["failures"]
        return None, failures, len(failures)


def known(prop):
    cases = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        if line.startswith(f"known: property={prop} case="):
            cases.append(line.split(" case=", 1)[1].strip())
    return cases


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        # Every check builds what it needs; here only see that the toolchain and crates are there.
        sys.exit(0 if build([]) else 2)

    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    start = time.time()
    deadline = start + LIMIT[tier]
    if not build([prop.lower()], ["serde"] if prop == "C15" else []):
        error("cannot build the check against the current tree")
    built = time.time()

    reports, failures, total = {}, [], 0
    for profile in PROFILES:
        report, fails, n = explore(prop, profile, tier, deadline)
        if report is not None:
            reports[profile] = report
        total += n
        for f in fails:
            failures.append(dict(f, profile=profile))

    expected = known(prop)
    findings = [f for f in failures if f["case"] in expected]
    failures = [f for f in failures if f["case"] not in expected]
    for c in dict.fromkeys(f["case"] for f in findings):
        print(f"KNOWN-FINDING: property={prop} {c}")

    level = LEVELS.get(prop, "model_checking")
    rs = list(reports.values())
    cov = {}
    sumof = lambda k: sum(r[k] for r in rs)
    samples = [s for r in rs[:1] for s in r["samples"]] or [f["case"] for f in failures[:3]]
    if level == "fault_enumeration":
        cov["evaluations"] = sumof("cases")
        cov["distinct_nontrivial"] = sum(r["counters"].get("faults_raised", 0) for r in rs)
        cov["rule"] = RULES[prop]
    else:
        cov["states"] = max([r["states"] for r in rs] or [0])
        cov["transitions"] = sumof("transitions")
        cov["traces_validated_against_impl"] = sumof("traces")
        if cov["transitions"] != sumof("cases"):
            cov["cases"] = sumof("cases")
    cov["samples"] = samples
    cov["exhaustive"] = bool(rs) and len(rs) == len(PROFILES) and all(r["complete"] for r in rs)
    cov["distinct_outcomes"] = max([r["outcomes"] for r in rs] or [0])
    cov["build_profiles"] = sorted(reports)
    for r in rs:
        for k, v in r["counters"].items():
            if k != "faults_raised":
                cov[k] = cov.get(k, 0) + v
    if rs:
        cov["bounds"] = rs[0]["bounds"]
    cov["build_s"] = round(built - start, 2)
    cov["explore_s"] = {p: r["wall"] for p, r in reports.items()}
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": cov,
        "assumptions": (rs[0]["assumptions"] if rs else []) + [
            "default crate features (and serde for C15); rustc stable as installed; x86-64 Linux"],
        "wall_s": round(time.time() - start, 3),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if failures:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", prop + ".txt")
        with open(path, "w") as f:
            f.write(f"property {prop}: {total} failing cases, {len(failures)} listed\n")
            for x in failures:
                f.write(f"\nprofile: {x['profile']}\ncase:    {x['case']}\ndetail:  {x['detail']}\n")
                f.write(f"replay:  MC_ONLY='{x['case']}' target/{x['profile']}/{prop.lower()} {tier}\n")
        for x in failures[:3]:
            print(f"[{x['profile']}] {x['case']}: {x['detail'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)

    if not rs or not cov["exhaustive"]:
        error("exploration is not complete")
    if not (cov.get("transitions") or cov.get("evaluations")):
        error("nothing was explored")
    short = {k: cov[k] for k in cov if isinstance(cov[k], int)}
    print(f"{prop} {tier} ok {short} wall {evidence['wall_s']}s")


main()
