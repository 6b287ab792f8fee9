#!/usr/bin/env python3
"""plant.py ID... : confirm planted bugs in a scratch copy bound over /repo (private mount namespace).
For each: clean build+demo = 0; patched builds, passes the stable tests, demo != 0; then the property's quick check.
"""
import json, os, subprocess, sys, shutil
ROOT = "/verif/seeded"
STAGE = os.environ.get("PLANT_STAGE")
if not STAGE:
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT))
    rc = 0
    for i in ids:
        r = subprocess.run(["unshare", "-Urm", sys.executable, __file__, i] + [a for a in sys.argv[1:] if a.startswith("-")],
                           env=dict(os.environ, PLANT_STAGE="1"))
        rc |= r.returncode
    sys.exit(rc)
i = sys.argv[1]
base = "/tmp/plant-%d" % os.getpid()
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
os.makedirs(base)
try:
    sh("cp -a /repo %s/repo" % base)
    sh("rsync -a --exclude .git --exclude .build --exclude out --exclude seeded /verif/ %s/verif/" % base) if shutil.which("rsync") else sh(
        "mkdir %s/verif && cd /verif && tar --exclude=./.git --exclude=./.build --exclude=./out --exclude=./seeded -cf - . | tar -C %s/verif -xf -" % (base, base))
    sh("cp -a %s/%s %s/demo && rm -f %s/demo/*.diff %s/demo/meta.json" % (ROOT, i, base, base, base))
    patch = "%s/patch.diff" % base
    shutil.copy("%s/%s/patch.diff" % (ROOT, i), patch)
    meta = json.load(open("%s/%s/meta.json" % (ROOT, i)))
    sh("mount --bind %s/repo /repo" % base)
    sh("mount --bind %s/verif /verif" % base)
    sh("git -C /repo checkout -q -- .")
    r = sh("bash /opt/vp/build.sh")
    assert r.returncode == 0, "clean build " + r.stderr[-500:]
    d0 = sh("bash %s/demo/demo.sh" % base, cwd="/repo")
    r = sh("git -C /repo apply %s" % patch)
    assert r.returncode == 0, "apply: " + r.stderr
    r = sh("bash /opt/vp/test.sh %s/t.json" % base)
    t = json.load(open("%s/t.json" % base))
    bl = json.load(open("/opt/vp/BASELINE.json"))
    want = bl.get("passed") or bl.get("stable") or bl.get("tests")
    missing = [x for x in want if x not in t["passed"]]
    d1 = sh("bash %s/demo/demo.sh" % base, cwd="/repo")
    ok = d0.returncode == 0 and d1.returncode != 0 and not missing and r.returncode == 0
    res = "%s %s demo clean=%d patched=%d missing_tests=%s" % (i, "OK" if ok else "BAD", d0.returncode, d1.returncode, missing)
    if not ok:
        res += "\n  clean: %s\n  patched: %s" % ((d0.stdout + d0.stderr)[-600:], (d1.stdout + d1.stderr)[-600:])
    if "--nocheck" not in sys.argv:
        c = sh("python3 check.py %s --tier quick" % meta["property"], cwd="/verif", env=dict(os.environ, SIM_BUILD="/tmp/plantbuild"))
        last = [l for l in c.stdout.splitlines() if l.strip()]
        caught = c.returncode == 1 and any(l.startswith("VIOLATION property=" + meta["property"]) for l in last)
        res += "\n   check %s: %s exit=%d %s" % (meta["property"], "CAUGHT" if caught else "MISSED", c.returncode, " | ".join(last[-3:])[:600] + c.stderr[-300:])
        rep = [l.split("replay=")[1] for l in last if "replay=" in l]
    print(res, flush=True)
finally:
    shutil.rmtree(base + "/demo", ignore_errors=True)
    sh("umount /repo; umount /verif")
    shutil.rmtree(base, ignore_errors=True)
