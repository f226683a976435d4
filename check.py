#!/usr/bin/env python3
"""Decide one property of /repo by generated-input search.

  check.py C01            build the harness against /repo's working tree and run the check
  check.py build          only build
  check.py replay FILE    run the case in FILE against /repo's working tree

VERIF_SEED selects the cases, VERIF_TIER (quick or thorough) how many and how large.
Exit 0: held on everything explored. 1: violated (a VIOLATION line names the replay file).
2: no answer (build failure, time or memory ran out).
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
PROFILES = [("checked", "release"), ("plain", "plain")]
MEMORY = 14 << 30
STUCK = 4

ASSUMPTIONS = [
    "the reference arithmetic in harness/src/model.rs is right (it is schoolbook code over u64 digits, itself tested "
    "by 'cargo test' in harness/ against u128 arithmetic, against digit-by-digit recomputation and by residues)",
    "numbers are made with UBig::new() and read back with UBig::digits() (harness/src/api.rs), which C18, C12 and C14 "
    "cross-check by other routes",
    "rustc, the standard library and num-traits are trusted",
]


def log(*a):
    print(*a, flush=True)


def no_answer(msg):
    log("NO ANSWER:", msg)
    sys.exit(2)


def inputs_hash():
    h = hashlib.sha256()
    for top in (REPO, HARNESS):
        files = []
        for base, dirs, names in os.walk(top):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
            files += [os.path.join(base, n) for n in names if n.endswith(".rs") or n in ("Cargo.toml", "Cargo.lock")
                      or base.endswith(".cargo") or "/src" in base]
        for f in sorted(files):
            if f == os.path.join(REPO, "Cargo.lock"):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    want = inputs_hash()
    jobs = []
    for name, profile in PROFILES:
        d = os.path.join(TARGET, name)
        stamp = os.path.join(d, ".inputs")
        exe = os.path.join(d, profile, "babs-check")
        if os.path.exists(stamp) and os.path.exists(exe) and open(stamp).read() == want:
            continue
        e = dict(env, CARGO_TARGET_DIR=d)
        if os.path.isdir(d):
            # file times in a copied tree say nothing about what was compiled: compile again
            for pkg in ("babs", "babs-check"):
                subprocess.run(["cargo", "clean", "--offline", "--profile", profile, "-p", pkg], cwd=HARNESS, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(d, exist_ok=True)
        out = open(os.path.join(d, "build.log"), "w+")
        p = subprocess.Popen(["cargo", "build", "--offline", "--locked", "--profile", profile], cwd=HARNESS, env=e,
                             stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT)
        jobs.append((name, stamp, out, p))
    bad = None
    for name, stamp, out, p in jobs:
        if p.wait() != 0:
            out.seek(0)
            bad = "the harness does not build (%s):\n%s" % (name, out.read()[-4000:])
        else:
            with open(stamp, "w") as f:
                f.write(want)
    lock.close()
    if bad:
        no_answer(bad)


def exe(name, profile):
    return os.path.join(TARGET, name, profile, "babs-check")


def child(args, timeout, memory=MEMORY, cpu=None):
    """Returns (rc or None on timeout, output)."""
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=limits, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""


SIGNALS = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)
ONE_CPU = 60
ONE_MEMORY = 8 << 30


def died(rc):
    """Ended by a signal it raised itself: stack overflow, abort (also for lack of memory), bad memory access."""
    return rc is not None and -rc in SIGNALS


def alone(args):
    """Run one case alone, in limits far beyond what any case needs (the largest takes about a second and some
    megabytes). Returns what it broke, or None."""
    rc, out = child(args, 600, ONE_MEMORY, ONE_CPU)
    if rc == -signal.SIGXCPU:
        return "this case alone does not finish in %d s of processor time" % ONE_CPU
    if died(rc) and "memory allocation of" in out:
        return "this case alone needs more than %d GB of memory" % (ONE_MEMORY >> 30)
    if died(rc):
        return "the process ended by signal %d on this case alone: %s" % (-rc, out.strip()[-300:])
    if rc == 1:
        return out.strip()[-600:]
    return None


def isolate(prop, name, profile, common, work, deadline, out):
    """The run died or got stuck: find the single case that does it. Returns (case, what it does) or None."""
    x = exe(name, profile)
    stuck = re.search(r"^STUCK (saved|index=\d+)$", out, re.M)
    regress = os.path.join(HERE, "regress")
    for f in sorted(os.listdir(regress)) if os.path.isdir(regress) and not (stuck and stuck.group(1) != "saved") else []:
        path = os.path.join(regress, f)
        with open(path) as fh:
            text = fh.read()
        if not re.search(r"^property %s\b" % prop, text, re.M):
            continue
        what = alone([x, "replay", path])
        if what:
            return text, what
    indices = []
    if stuck and stuck.group(1) != "saved":
        indices = [int(stuck.group(1)[6:])]
    elif not stuck:
        trace = os.path.join(work, "trace")
        rc, _ = child([x, "run", prop, "trace=" + trace] + common, max(10, deadline - time.time()))
        if not died(rc):
            return None
        for f in sorted(os.listdir(work)):
            if f.startswith("trace."):
                with open(os.path.join(work, f)) as fh:
                    i = fh.read().strip()
                if i.isdigit():
                    indices.append(int(i))
    for i in indices:
        sel = [x, "case", prop, "index=%d" % i] + common
        what = alone(sel)
        if what:
            rc, text = child(sel + ["dry=1"], 120)
            if rc == 0:
                return text, what
    return None


def check(prop):
    start = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    seed = abs(seed) % (1 << 63)
    # a limit on the whole run: reaching it is no answer, never a violation
    deadline = start + (860 if tier == "quick" else 7200)
    build()
    work = os.path.join(TARGET, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {}}
    parts, violation = {}, None
    try:
        for name, profile in PROFILES:
            x = exe(name, profile)
            out_json = os.path.join(work, name + ".json")
            replay = os.path.join(replays, "%s-%s-seed%d-%s.case" % (prop, tier, seed, name))
            common = ["seed=%d" % seed, "tier=" + tier, "profile=" + name, "threads=8"]
            args = [x, "run", prop, "out=" + out_json, "replay=" + replay,
                    "regress=" + os.path.join(HERE, "regress")] + common
            rc, out = child(args, max(10, deadline - time.time()))
            if rc == STUCK or died(rc):
                found = isolate(prop, name, profile, common, work, deadline, out)
                if found:
                    with open(replay, "w") as f:
                        f.write("# %s\n%s" % (found[1].replace("\n", " "), found[0]))
                    violation = (replay, found[1])
                    break
                if rc != STUCK:
                    no_answer("the %s run of %s ended by signal %d, which did not happen again:\n%s" % (name, prop, -rc, out[-2000:]))
                # a slow machine: no single case is at fault
                rc, out = child(args + ["stuck=0"], max(10, deadline - time.time()))
            if rc is None:
                no_answer("the %s run of %s did not finish in time" % (name, prop))
            if rc in (0, 1) and os.path.exists(out_json):
                with open(out_json) as f:
                    parts[name] = json.load(f)
                if rc == 1:
                    violation = (replay, out.strip())
                    break
            else:
                no_answer("the %s run of %s ended with status %s:\n%s" % (name, prop, rc, out[-2000:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov = {"evaluations": sum(p["evaluations"] for p in parts.values()),
           "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts.values()),
           "saved_cases_replayed": sum(p["saved_cases"] for p in parts.values()),
           "rule": "a case is one input, operation or operation history together with the build it runs in (checked: "
                   "overflow checks and debug assertions on; plain: off); " + next((p["rule"] for p in parts.values()), ""),
           "samples": [], "builds": {}}
    for name, p in parts.items():
        cov["samples"] += ["%s %s" % (name, s) for s in p["samples"]]
        cov["builds"][name] = {k: p[k] for k in ("planned", "evaluations", "distinct_nontrivial", "wall_s", "classes")}
    evidence["coverage"] = cov
    evidence["assumptions"] = ASSUMPTIONS
    evidence["violations"] = 1 if violation else 0
    evidence["wall_s"] = round(time.time() - start, 3)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    if violation:
        log(violation[1][:3000])
        log("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        sys.exit(1)
    log("%s held on %d cases (%d distinct and non-trivial), seed %d, %.1f s" %
        (prop, cov["evaluations"], cov["distinct_nontrivial"], seed, evidence["wall_s"]))


def replay(path):
    build()
    worst = 0
    for name, profile in PROFILES:
        rc, out = child([exe(name, profile), "replay", path], 600, ONE_MEMORY, ONE_CPU)
        log("[%s] %s" % (name, out.strip()))
        if rc == 1 or died(rc) or rc == -signal.SIGXCPU:
            worst = 1
        elif rc != 0 and worst == 0:
            worst = 2
    sys.exit(worst)


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "build":
        build()
    elif len(sys.argv) == 3 and sys.argv[1] == "replay":
        replay(os.path.abspath(sys.argv[2]))
    elif len(sys.argv) == 2 and re.fullmatch(r"C\d\d", sys.argv[1]):
        check(sys.argv[1])
    else:
        print(__doc__)
        sys.exit(2)
