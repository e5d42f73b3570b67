#!/usr/bin/env python3
"""Supervisor of one check:  check.py C01 [quick|thorough]   (VERIF_SEED, VERIF_TIER)

Builds the worker from /repo's working tree, runs this property's histories under its monitors in
every configured build, confirms crashes and hangs by replaying the single history in flight, writes
evidence/<id>.json and prints the verdict.  Exit 0: held on everything explored.  Exit 1 with a
VIOLATION line: broken.  Anything else: the check itself could not decide.
"""
import array, json, os, resource, signal, struct, subprocess, sys, time, re

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
T0 = time.time()
CASES = set()
from plan import PLAN, ASSUMPTIONS

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
plan = PLAN[prop]
NCPU = os.cpu_count() or 8
RUN = os.path.join(TARGET, "run", f"{prop}-{os.getpid()}")
REPLAY = os.path.join(HERE, "replay")
os.makedirs(RUN, exist_ok=True)
os.makedirs(REPLAY, exist_ok=True)


def say(*a):
    print(*a, flush=True)


def undecided(msg):
    say(f"UNDECIDED property={prop}: {msg}")
    sys.exit(2)


ENV = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER")}
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
HARNESS = os.path.join(HERE, "harness")

BUILDS = {
    "dev": dict(args=[], path="debug/monitor"),
    "release": dict(args=["--release"], path="release/monitor"),
    "asan": dict(
        tool=["+nightly"],
        args=["--release", "--target", "x86_64-unknown-linux-gnu", "--features", "plain-alloc"],
        env={"RUSTFLAGS": "-Zsanitizer=address -Cdebug-assertions=on"},
        path="x86_64-unknown-linux-gnu/release/monitor",
    ),
    # races: the standard library has to be instrumented too, so it is built along
    "tsan": dict(
        tool=["+nightly"],
        args=["--release", "--target", "x86_64-unknown-linux-gnu", "-Zbuild-std", "--features", "plain-alloc"],
        env={"RUSTFLAGS": "-Zsanitizer=thread"},
        path="x86_64-unknown-linux-gnu/release/monitor",
    ),
}
NOLIMIT = ("asan", "tsan")


def start_build(name):
    b = BUILDS[name]
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, name), **b.get("env", {}))
    log = open(os.path.join(RUN, f"build-{name}.log"), "wb")
    p = subprocess.Popen(["cargo", *b.get("tool", []), "build", "--offline", "--locked", *b["args"]], cwd=HARNESS, env=env, stdout=log, stderr=log)
    return p, log.name


def binary(name):
    return os.path.join(TARGET, name, BUILDS[name]["path"])


def limits(cpu, mem_gb):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            k = f.tell()
            f.seek(max(0, k - n))
            return f.read().decode("utf8", "replace")
    except OSError:
        return ""


def died(rc):
    return rc < 0 or rc >= 128


def violation(where, text, cmd):
    name = os.path.join("replay", f"{prop}-{tier}-{seed}.txt")
    with open(os.path.join(HERE, name), "w") as f:
        f.write(f"property {prop}, {where}, VERIF_SEED={seed}, tier {tier}\nreplay: {cmd}\n\n{text}\n")
    return name


def run_env(b):
    e = dict(ENV)
    e["RUST_BACKTRACE"] = "0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0"
    return e


def run_build(b, count, offset, ntier, cap):
    """Runs `count` histories in build b. Returns (result dict or None, violation or None)."""
    out, state = os.path.join(RUN, f"{b}.json"), os.path.join(RUN, f"{b}.state")
    threads = NCPU
    with open(state, "wb") as f:
        f.write(b"\xff" * 8 * threads)
    base = ["--prop", prop, "--seed", str(seed), "--tier", str(ntier)]
    cmd = [binary(b), "run", *base, "--from", str(offset), "--to", str(offset + count), "--threads", str(threads), "--cap", str(cap), "--out", out, "--state", state]
    err = os.path.join(RUN, f"{b}.err")
    mem = 0 if b in NOLIMIT else 24
    hung = False
    with open(err, "wb") as e:
        p = subprocess.Popen(cmd, env=run_env(b), stdout=e, stderr=e, preexec_fn=limits(0, mem))
        try:
            rc = p.wait(timeout=cap + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            hung, rc = True, -9
    if rc == 0:
        r = json.load(open(out))
        a = array.array("Q")
        with open(out + ".cases", "rb") as f:
            a.frombytes(f.read())
        CASES.update(a)
        v = r.get("violation")
        if v:
            one = f"{binary(b)} one {' '.join(base)} --index {v['index']}"
            text = "\n".join("=> " + m for m in v["messages"]) + "\n\nhistory:\n" + "\n".join(v["log"])
            return r, dict(text=text, messages=v["messages"], cmd=one, where=f"{b} build, history {v['index']}")
        return r, None
    if b == "tsan" and rc == 66 and "WARNING: ThreadSanitizer" in (report := open(err, errors="replace").read()):
        m = re.search(r"WARNING: ThreadSanitizer: (.*?)( \(pid.*)?$", report, re.M).group(1)
        where = [x.strip() for x in re.findall(r"^\s+#\d+ (.*)$", report, re.M) if "generic_btree" in x][:2]
        return None, dict(text=report[:20000], messages=[f"ThreadSanitizer: {m}: {'; '.join(where)}"], cmd=" ".join(cmd), where="tsan build")
    # the worker died or hung: which of the histories in flight does that on its own?
    what = "did not finish" if hung else f"died (exit {rc})"
    say(f"note: the {b} worker {what}; replaying the histories in flight")
    flight = [x for x in struct.unpack(f"<{threads}Q", open(state, "rb").read()[: 8 * threads]) if x != 2**64 - 1]
    procs = []
    for i in flight:
        tr, eo = os.path.join(RUN, f"one-{i}.trace"), os.path.join(RUN, f"one-{i}.err")
        c = [binary(b), "one", *base, "--index", str(i), "--trace", tr]
        procs.append((i, tr, eo, c, subprocess.Popen(c, env=run_env(b), stdout=subprocess.DEVNULL, stderr=open(eo, "wb"), preexec_fn=limits(75, 0 if b in NOLIMIT else 8))))
    found = None
    for i, tr, eo, c, p in procs:
        try:
            rc1 = p.wait(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc1 = None
        if rc1 is None or not died(rc1):
            continue
        why = {-signal.SIGXCPU: "uses more than 75 s of processor time (such a history takes milliseconds)", -signal.SIGSEGV: "ends in a segmentation fault or stack overflow", -signal.SIGABRT: "aborts"}.get(rc1, f"is killed (exit {rc1})")
        m = f"history {i} {why}: {tail(eo, 600).strip()}"
        if not found:
            found = dict(text="=> " + m + "\n\nhistory (the last line is the operation in progress):\n" + tail(tr, 20000) + "\n" + tail(eo, 6000), messages=[m], cmd=" ".join(c), where=f"{b} build, history {i}")
    if found:
        return None, found
    if not hung and rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
        # not one history on its own: the same run again, and what ends the process twice is the code under test
        say("note: none of them does it alone; the same run again")
        with open(err, "wb") as e:
            p = subprocess.Popen(cmd, env=run_env(b), stdout=e, stderr=e, preexec_fn=limits(0, mem))
            try:
                rc2 = p.wait(timeout=cap + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc2 = 0
        if rc2 == rc:
            m = f"the process running the histories ends with signal {-rc}, twice: {tail(err, 600).strip()}"
            return None, dict(text="=> " + m + "\n" + tail(err, 20000), messages=[m], cmd=" ".join(cmd), where=f"{b} build")
    undecided(f"the {b} worker {what} and no single history reproduces it: {tail(err, 800)}")


def run_miri(count, cap):
    """C24, C27: the histories in an interpreter that detects undefined behaviour, data races and leaks."""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "miri"))
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    pre = ["cargo", "+nightly", "miri"]
    feat = ["--offline", "--locked", "--features", "plain-alloc"]
    # first call builds (and, once per sandbox, prepares the interpreter's standard library)
    l = open(os.path.join(RUN, "miri-build.log"), "wb")
    try:
        rc = subprocess.run([*pre, "run", *feat, "--", "run", "--prop", prop, "--from", "0", "--to", "0", "--threads", "1"], cwd=HARNESS, env=env, stdout=l, stderr=l, timeout=500).returncode
    except subprocess.TimeoutExpired:
        rc = -1
    if rc != 0:
        undecided("the interpreter build failed: " + tail(l.name, 1500))
    procs = []
    for w in range(NCPU):
        out, err = os.path.join(RUN, f"miri{w}.json"), os.path.join(RUN, f"miri{w}.err")
        # the last two run two threads at a time, each on its own trees
        th = 2 if w >= NCPU - 2 and prop == "C24" else 1
        a = w * 100000
        c = [*pre, "run", *feat, "--", "run", "--prop", prop, "--seed", str(seed), "--tier", "2", "--from", str(a), "--to", str(a + count), "--threads", str(th), "--cap", str(cap), "--out", out]
        env["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-seed={seed * 100 + w}" + (" -Zmiri-preemption-rate=0.05" if prop == "C27" else "")
        procs.append((out, err, c, subprocess.Popen(c, cwd=HARNESS, env=dict(env), stdout=open(err, "wb"), stderr=subprocess.STDOUT)))
    res, bad = [], None
    for out, err, c, p in procs:
        try:
            rc = p.wait(timeout=cap + 400)
        except subprocess.TimeoutExpired:
            p.kill()
            continue
        t = open(err, errors="replace").read()
        m = re.search(r"^error: (Undefined Behavior.*|memory leaked.*|unsupported operation.*|.*[Dd]ata race.*|abnormal termination.*)$", t, re.M)
        if rc != 0 and m and not m.group(1).startswith("unsupported"):
            bad = bad or dict(text=t[-12000:], messages=[m.group(1)], cmd="cd harness && MIRIFLAGS=-Zmiri-disable-isolation " + " ".join(c), where="interpreter")
        elif os.path.exists(out) and (v := json.load(open(out)).get("violation")):
            bad = bad or dict(text="\n".join(["=> " + m for m in v["messages"]] + v["log"]), messages=v["messages"], cmd="cd harness && " + " ".join(c), where=f"interpreter, history {v['index']}")
        elif rc != 0:
            say("note: an interpreter process failed: " + t[-400:].replace("\n", " | "))
        elif os.path.exists(out):
            res.append(json.load(open(out)))
    if not res and not bad:
        undecided("no interpreter process produced a result")
    return res, bad


def run_capacity():
    p = subprocess.run([binary("release"), "capacity"], env=run_env("release"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(400, 16), timeout=600)
    return p.returncode, p.stdout.decode("utf8", "replace")


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def main():
    steps = plan[tier]
    want = [b for b in ("dev", "release", "tsan", "asan") if b in steps]
    builds = [(b, *start_build(b)) for b in want]
    for b, p, log in builds:
        if p.wait() != 0:
            if b == "tsan" and "could not compile `generic-btree`" not in tail(log, 20000) and "could not compile `monitor`" not in tail(log, 20000):
                # no race detector here: the comparison of answers still decides
                say("note: the race detector's build failed: " + tail(log, 600).replace("\n", " | "))
                want.remove(b)
                continue
            for _, q, _ in builds:
                q.poll() is None and q.kill()
            undecided(f"building the {b} worker failed:\n" + tail(log, 4000))
    results, viol = {}, None
    offset = 0
    for b in want:
        count, cap = steps[b]
        ntier = 0 if tier == "quick" else 1
        r, v = run_build(b, count, offset, ntier, cap)
        if r:
            results[b] = r
        offset += 10_000_000
        if v:
            viol = v
            break
    extra = {}
    if not viol and "miri" in steps:
        res, bad = run_miri(*steps["miri"])
        viol = viol or bad
        extra["interpreter"] = {"histories": sum(r["completed"] for r in res), "operations": sum(r["states"] for r in res), "processes": len(res)}
        for r in res:
            for x in ("shapes", "cases"):
                r[x] = 0
        results["miri"] = {"completed": extra["interpreter"]["histories"], "requested": sum(r["requested"] for r in res), "states": extra["interpreter"]["operations"], "shapes": 0, "cases": 0, "handles": 0, "max_size": 0, "max_depth": 0, "callbacks": 0, "ops": {}, "reads": {}, "work": {}, "foreign": {}, "samples": []}
        for r in res:
            add(results["miri"]["ops"], r["ops"])
            add(results["miri"]["foreign"], r["foreign"])
    if not viol and steps.get("capacity"):
        rc, out = run_capacity()
        extra["very large tree"] = out.strip().splitlines()[-4:]
        if rc != 0:
            if "memory allocation" in out or rc == -9:
                say("note: not enough memory for the very large tree: " + out[-200:])
            else:
                viol = dict(text=out[-4000:], messages=["a tree of 23 million elements fails: " + out.strip()[-300:]], cmd=f"{binary('release')} capacity", where="very large tree")
    ops, reads, work, foreign, samples = {}, {}, {}, {}, []
    tot = {k: 0 for k in ("completed", "requested", "states", "shapes", "cases", "handles", "callbacks")}
    for r in results.values():
        for k in tot:
            tot[k] += r[k]
        add(ops, r["ops"])
        add(reads, r["reads"])
        add(foreign, r["foreign"])
        for k, x in r["work"].items():
            work[k] = max(work.get(k, 0), x)
        samples += r["samples"][:2]
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) signature=(.*)$", line.strip())
        if m and m.group(1) == prop:
            known.append(m.group(2))
    if viol and known and all(any(re.sub(r"\d+", "#", m).startswith(k) for k in known) for m in viol["messages"]):
        for m in viol["messages"]:
            say(f"KNOWN-FINDING: property={prop} {m[:300]}")
        viol = None
    cov = {
        "evaluations": tot["completed"],
        "distinct_nontrivial": len(CASES),
        "rule": plan["rule"],
        "samples": samples[:3],
        "histories_requested": tot["requested"],
        "observed_states": tot["states"],
        "distinct_tree_shapes": tot["shapes"],
        "handle_observations": tot["handles"],
        "trait_callbacks_observed": tot["callbacks"],
        "operations": ops,
        "monitored_observations": reads,
        "largest_work_observed": work,
        "largest_size": max([r["max_size"] for r in results.values()] or [0]),
        "largest_height": max([r["max_depth"] for r in results.values()] or [0]),
        "builds": {b: r["completed"] for b, r in results.items()},
        "histories_cut_short_by_other_properties": sum(foreign.values()),
        **extra,
    }
    if prop == "C27":
        cov["distinct_interleavings"] = cov.pop("distinct_tree_shapes")
    if foreign:
        cov["foreign_findings"] = dict(sorted(foreign.items(), key=lambda x: -x[1])[:8])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": ASSUMPTIONS + plan.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    say(f"{prop} {tier} seed={seed}: {tot['completed']} histories, {tot['states']} observed states, {len(CASES)} distinct cases, {round(time.time() - T0, 1)} s")
    for k, n in sorted(foreign.items(), key=lambda x: -x[1])[:5]:
        say(f"note: {n} histories broke another property: {k}")
    if viol:
        name = violation(viol["where"], viol["text"], viol["cmd"])
        for m in viol["messages"][:3]:
            say("  " + m[:500])
        say(f"VIOLATION property={prop} replay={name}")
        return 1
    missing = [k for k in plan["needs"] if not (ops.get(k) or reads.get(k))]
    if missing:
        if foreign:
            undecided(f"histories were cut short before these were observed: {missing}")
        undecided(f"nothing observed for: {missing}")
    return 0


try:
    rc = main()
finally:
    subprocess.run(["rm", "-rf", RUN])
sys.exit(rc)
