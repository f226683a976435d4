#!/usr/bin/env python3
"""Run properties against a changed scratch copy of /repo (development aid; no check uses this).

  try_patch.py [--revert COMMIT] [--patch FILE] [--seed N] [--scale X] [--save DIR] [--tests] [--profiles checked,plain] C01 C02 ...
"""
import argparse, os, shutil, subprocess, sys, tempfile
ap = argparse.ArgumentParser()
ap.add_argument("--revert"); ap.add_argument("--patch"); ap.add_argument("--seed", default="1"); ap.add_argument("--scale", default="1")
ap.add_argument("--save"); ap.add_argument("--tests", action="store_true"); ap.add_argument("--profiles", default="checked,plain")
ap.add_argument("--demo"); ap.add_argument("--threads", default="8"); ap.add_argument("--regress", action="store_true")
ap.add_argument("props", nargs="*")
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="tp-", dir="/tmp")
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
try:
    r = os.path.join(d, "repo"); h = os.path.join(d, "harness")
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    if a.revert: subprocess.check_call(["git", "-C", r, "revert", "--no-edit", a.revert], stdout=subprocess.DEVNULL)
    if a.patch: subprocess.check_call(["git", "-C", r, "apply", os.path.abspath(a.patch)])
    rc_all = 0
    if a.tests:
        p = subprocess.run(["cargo", "test", "--workspace", "--all-targets", "--offline"], cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("tests:", "ok" if p.returncode == 0 else "FAIL", [l for l in p.stdout.splitlines() if l.startswith("test result")], [l for l in p.stdout.splitlines() if "FAILED" in l or l.startswith("error")][:6])
    if a.demo:
        for what, cwd in (("patched", r),):
            p = subprocess.run(["bash", os.path.abspath(a.demo)], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("demo", what, "exit", p.returncode, p.stdout.strip()[-300:])
    if a.props:
        os.makedirs(h); shutil.copytree(os.path.join(V, "harness", "src"), os.path.join(h, "src"))
        for f in ("Cargo.toml", "Cargo.lock"):
            s = open(os.path.join(V, "harness", f)).read().replace('"/repo"', '"%s"' % r)
            open(os.path.join(h, f), "w").write(s)
    for prof in a.profiles.split(",") if a.props else []:
        cargo = {"checked": "release", "plain": "plain"}[prof]
        p = subprocess.run(["cargo", "build", "--offline", "--profile", cargo], cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: print(p.stdout[-3000:]); sys.exit(2)
        for q in a.props:
            args = [os.path.join(h, "target", cargo, "babs-check"), "run", q, "seed=" + a.seed, "profile=" + prof, "scale=" + a.scale, "threads=" + a.threads, "out=" + os.path.join(d, "o.json"), "replay=" + os.path.join(d, "r.case")]
            if a.regress: args.append("regress=" + os.path.join(V, "regress"))
            try: p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired: print(q, prof, "TIMEOUT", flush=True); continue
            print(q, prof, "exit", p.returncode, p.stdout.strip()[:400].replace("\n", " | "), flush=True)
            if p.returncode == 1 and a.save:
                os.makedirs(a.save, exist_ok=True)
                n = 0
                while os.path.exists(os.path.join(a.save, "%s-%02d.case" % (q, n))): n += 1
                shutil.copy(os.path.join(d, "r.case"), os.path.join(a.save, "%s-%02d.case" % (q, n)))
finally:
    shutil.rmtree(d, ignore_errors=True)
