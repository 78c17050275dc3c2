#!/usr/bin/env python3
"""plant.py ID [CHECK ...]: tries a planted bug (or the directory's edit.py) in a scratch copy of /repo.

Builds, runs the stable tests and the demonstration with and without the patch, then the given checks (default: the one of its property).
  plant.py --make ID PROPERTY EDIT.py DEMO.py "needs" "what it breaks"   creates /verif/seeded/ID; EDIT.py edits files in its cwd
"""
import fcntl, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CM = ["-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O2 -g", "-DBUILD_TESTING=ON", "-DCSN_SANITIZE=ON",
      "-DBUILD_CSN=ON", "-DBUILD_CSN_TOOL=ON", "-DBUILD_CSN_BENCH=ON", "-DBUILD_PATCHDD=ON", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
      "-DCMAKE_C_FLAGS=-Wno-error -Wno-deprecated-declarations"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def worktree(tag):
    d = "/tmp/plant-" + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A -f && git -c user.name=x -c user.email=x commit -qm x" % (d, d), shell=True)
    return d


def build(d):
    r = sh(["cmake", "-S", d, "-B", d + "/_build"] + CM, env=dict(os.environ, CC="gcc"))
    if r.returncode == 0:
        r = sh(["ninja", "-C", d + "/_build"])
    return r


def tests(d):
    r = sh(["ctest", "--test-dir", d + "/_build", "--timeout", "120", "-R", "chunker_test|encrypt_test"])
    if r.returncode:
        return False, r.stdout[-1500:]
    with open("/tmp/plant.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        for f in ("casync_test.py", "csn_test.py"):
            r = sh(["timeout", "-k", "10", "300", "/opt/vp/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", f], cwd=d + "/test/e2e",
                   env=dict(os.environ, PATH=d + "/_build:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1"))
            failed = [x for x in r.stdout.split("\n") if x.startswith("FAILED") or x.startswith("ERROR")]
            stable = {x.split("::")[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
            bad = [x for x in failed if any("::" + s in x for s in stable)]
            if bad or "passed" not in r.stdout:
                return False, r.stdout[-1500:]
    return True, ""


def demo(sd, d):
    lib = "/tmp/plant-demo-%d" % os.getpid()
    shutil.rmtree(lib, ignore_errors=True)
    shutil.copytree(sd, lib, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    t = time.time()
    try:
        r = sh(["bash", lib + "/demo.sh"], cwd=d, timeout=300)
        return r.returncode, time.time() - t, r.stdout[-600:]
    finally:
        shutil.rmtree(lib, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "--make":
        ident, prop, edit, dem, needs, breaks = a[1:7]
        d = worktree(ident)
        r = sh([sys.executable, os.path.abspath(edit)], cwd=d)
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE).stdout
        if r.returncode or not diff:
            print("edit failed", r.stdout)
            return 1
        sd = V + "/seeded/" + ident
        os.makedirs(sd, exist_ok=True)
        open(sd + "/patch.diff", "wb").write(diff)
        shutil.copy(dem, sd + "/demo.py")
        shutil.copy(V + "/tools/plantlib/demolib.py", sd)
        open(sd + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(sd + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        a = [ident] + a[7:]
    ident, checks = a[0], a[1:]
    sd = V + "/seeded/" + ident
    meta = json.load(open(sd + "/meta.json"))
    clean = "/tmp/plant-clean-%s" % ident
    d = worktree(ident)
    c = worktree("clean-" + ident)
    out = []
    try:
        r = sh(["git", "-C", d, "apply", sd + "/patch.diff"])
        if r.returncode:
            print(ident, "patch does not apply", r.stdout)
            return 1
        for x in (c, d):
            r = build(x)
            if r.returncode:
                print(ident, "does not build", r.stdout[-1500:])
                return 1
        ok, msg = tests(d)
        if not ok:
            print(ident, "TESTS FAIL", msg)
            return 1
        rc0, t0, o0 = demo(sd, c)
        rc1, t1, o1 = demo(sd, d)
        print("%s: tests pass; demo clean=%d (%.1fs) patched=%d (%.1fs) %s" % (ident, rc0, t0, rc1, t1, "" if rc0 == 0 and rc1 != 0 else "*** BAD DEMO ***\n" + o0 + "\n--\n" + o1))
        print("   ", o1.strip()[:300])
        for k in checks or [meta["property"]]:
            t = time.time()
            r = sh([sys.executable, V + "/run.py", k], env=dict(os.environ, CSNV_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            v = [x for x in r.stdout.split("\n") if x.startswith("  case")]
            print("    %s: rc=%d %.0fs %s" % (k, r.returncode, time.time() - t, ("CAUGHT " + v[0].strip()[:220] if v else "no case") if r.returncode == 1 else "*** MISSED *** " + r.stdout[-300:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(c, ignore_errors=True)


sys.exit(main())
