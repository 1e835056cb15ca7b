#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py --setup   |   check.py --replay <file>

Mirrors /repo's working tree, builds the exploration harness against it, runs one property's exploration, writes
/verif/evidence/<property>.json and gives the verdict (exit 0 / exit 1 with a VIOLATION line / exit 2: no answer)."""
import json, os, re, resource, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(V, ".work")
TARGET = os.path.join(WORK, "target")
KNOWN = os.path.join(V, "known_findings.txt")
# C20 is decided by re-running these explorations on builds with other feature sets.
C20_PARTS = ["C05", "C06", "C07", "C08", "C09", "C13", "C17", "C19"]
# (name, features, parts, harness crate)
VARIANTS = [("left", ["left"], C20_PARTS, "harness", "mc"), ("fake_exp", ["fake_exp"], C20_PARTS, "harness", "mc"),
            ("left+fake_exp", ["left", "fake_exp"], C20_PARTS, "harness", "mc"), ("f32", [], ["F32"], "harness-f32", "mcf")]
# lattices grow with the level; cheap explorations run a deeper level already in the quick tier
LEVEL = {"quick": {p: 1 for p in "C02 C03 C04 C05 C07 C08 C09 C10 C11 C12 C14 C22".split()}, "thorough": {p: 2 for p in "C02 C03 C04 C05 C07 C08 C09 C10 C11 C12 C14 C22".split()}}
# properties decided by a harness crate of their own (it needs another set of dependencies)
CRATES = {"C22": ("harness-rerun", "mcr")}
LIMITS = {"quick": 600, "thorough": 5 * 3600}


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    out = subprocess.run(["bash", "-c", f"set -a; . {V}/tools/env.sh; env -0"], env=e, stdout=subprocess.PIPE, check=True).stdout
    e = dict(x.split("=", 1) for x in out.decode(errors="replace").split("\0") if "=" in x)
    e["CARGO_TARGET_DIR"] = TARGET
    return e


def build(features=(), crate="harness", exe="mc"):
    subprocess.run([sys.executable, os.path.join(V, "tools/mirror.py"), os.path.join(WORK, "pkg")], check=True)
    cmd = ["cargo", "build", "--offline", "--locked", "-q"]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=os.path.join(V, crate), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        print("ERROR: the harness does not build against /repo's working tree (no verdict)")
        sys.exit(2)
    exe = os.path.join(TARGET, "debug", exe)
    if features:
        dst = os.path.join(TARGET, "mc-" + "-".join(features))
        subprocess.run(["cp", "-f", exe, dst], check=True)
        return dst
    return exe


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def explore(exe, prop, level, replay=None, limit=600):
    """Run the harness once; returns its report."""
    out = os.path.join(WORK, f"report-{os.getpid()}.json")
    trace = os.path.join(WORK, f"trace-{os.getpid()}")
    scratch = os.path.join(WORK, f"scratch-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    e = env()
    e["MC_SCRATCH"] = scratch
    e["MC_HANG"] = str(min(1800, limit // 4))  # a case that takes longer does not terminate
    cmd = [exe, prop, "--level", str(level), "--out", out]
    if replay is not None:
        cmd += ["--replay", replay]

    def once(c, e):
        if os.path.exists(out):
            os.unlink(out)
        try:
            return subprocess.run(c, env=e, stdout=subprocess.DEVNULL, preexec_fn=limits, timeout=limit, cwd=WORK).returncode
        except subprocess.TimeoutExpired:
            return None

    try:
        rc = once(cmd, e)
        if rc is not None and rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
            # The code under test took the process down (stack overflow, abort).  Find the case and confirm it.
            e["MC_TRACE"] = trace
            rc2 = once(cmd + ["--threads", "1"], e)
            case = open(trace).read() if os.path.exists(trace) else ""
            if rc2 == rc and case:
                rc3 = once([exe, prop, "--level", str(level), "--out", out, "--replay", case], e)
                if rc3 == rc:
                    return {"states": 0, "transitions": 0, "traces": 1, "cases": 1, "wall_s": 0.0, "counters": {}, "samples": [case],
                            "violations": [{"case": case, "msg": f"the process died with signal {-rc}"}], "note": ""}
        if rc not in (0, 1) or not os.path.exists(out):
            print(f"ERROR: the exploration ended with {rc} (no verdict)")
            sys.exit(2)
        return json.load(open(out))
    finally:
        for f in (out, trace):
            if os.path.exists(f):
                os.unlink(f)
        subprocess.run(["rm", "-rf", scratch])


def typed(tier, replay=None):
    """C23: the deciding executions are those of the compiler, on programs against /repo's working tree."""
    sys.path.insert(0, os.path.join(V, "tools"))
    sys.dont_write_bytecode = True
    import typed as programs
    subprocess.run([sys.executable, os.path.join(V, "tools/mirror.py"), os.path.join(WORK, "pkg")], check=True)
    crate = os.path.join(WORK, "typed")
    os.makedirs(crate, exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        t = open(os.path.join(V, "harness-types", f)).read().replace("../.work/pkg", "../pkg")
        open(os.path.join(crate, f), "w").write(t)
    return programs.run(crate, env(), tier, replay)


def known(prop):
    """known: property=<id> case=<regex matching "<case id> => <message>" as a whole> :: <what fails>"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) case=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main():
    os.makedirs(WORK, exist_ok=True)
    a = sys.argv[1:]
    if a[0] == "--setup":
        build()
        for crate, exe in CRATES.values():
            build([], crate, exe)
        for _, feats, _, crate, exe in VARIANTS:
            build(feats, crate, exe)
        print("harnesses built")
        return 0
    replay = None
    if a[0] == "--replay":
        replay = json.load(open(a[1]))
        prop, tier = replay["property"], replay["tier"]
    else:
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    runs = []
    parts = [(None, [], prop) + CRATES.get(prop, ("harness", "mc"))]
    if prop == "C20":
        parts = [(n, f, p, crate, exe) for n, f, ps, crate, exe in VARIANTS for p in ps]
    exes = {}
    for name, feats, sub, crate, exe in parts:
        if replay and (replay.get("variant"), replay["part"]) != (name, sub):
            continue
        if prop == "C23":
            runs.append(dict(typed(tier, replay["case"] if replay else None), variant=None, part=sub))
            continue
        if name not in exes:
            exes[name] = build(feats, crate, exe)
        level = {"quick": 0, "thorough": 1}[tier] if name else LEVEL[tier].get(prop, {"quick": 0, "thorough": 1}[tier])
        r = explore(exes[name], sub, level, replay["case"] if replay else None, LIMITS[tier])
        r["variant"], r["part"] = name, sub
        if len(parts) > 1:
            print(f"  {name} {sub}: {r['cases']} cases, {r['wall_s']} s, {len(r['violations'])} violations", flush=True)
        runs.append(r)
        if r["violations"] and prop == "C20":
            break
    viols = [dict(v, variant=r["variant"], part=r["part"]) for r in runs for v in r["violations"]]
    kn = known(prop)
    fresh, listed = [], []
    for v in viols:
        full = (v["variant"] + " " + v["part"] + " " if v["variant"] else "") + v["case"]
        for rx, what in kn:
            if rx.fullmatch(full + " => " + v["msg"]):
                listed.append((full, what))
                break
        else:
            fresh.append(v)
    counters = {}
    for r in runs:
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
    cov = {
        "states": sum(r["states"] for r in runs),
        "transitions": sum(r["transitions"] for r in runs),
        "traces_validated_against_impl": sum(r["traces"] for r in runs),
        "samples": [((r["variant"] + " " + r["part"] + ": ") if r["variant"] else "") + s for r in runs for s in r["samples"][: 12 if len(runs) == 1 else 2]],
        "exhaustive": not fresh,
        "cases_enumerated": sum(r["cases"] for r in runs),
        "counters": counters,
        "explanation": "every case of the stated finite enumeration is one execution of the real code in lockstep with the reference model; "
        "states are distinct reference-model states, transitions single checked operations",
    }
    if replay is None:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
              "assumptions": ["bounds and alphabets as stated in DESIGN.md", "default 64-bit build with the pinned toolchain"],
              "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for full, what in listed:
        print(f"KNOWN-FINDING: property={prop} {what} [{full}]")
    if fresh:
        v = min(fresh, key=lambda v: len(v["case"]))
        if replay is None:
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            rp = os.path.join(V, "replays", prop + ".json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "variant": v["variant"], "part": v["part"], "case": v["case"], "msg": v["msg"],
                           "how": f"python3 {V}/check.py --replay {rp}"}, f, indent=1)
        else:
            rp = a[1]
        for v in fresh[:5]:
            print(f"  case: {(v['variant'] + ' ' + v['part'] + ' ') if v['variant'] else ''}{v['case']}\n  {v['msg']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop} {tier}: held; states={cov['states']} transitions={cov['transitions']} executions={cov['traces_validated_against_impl']} wall={time.time() - t0:.1f}s")
    return 0


sys.exit(main())
