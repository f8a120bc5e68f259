#!/usr/bin/env python3
"""seed.py <id>: confirm /verif/seeded/<id> in a scratch copy: applies, builds, stable tests pass,
demo passes on the unchanged tree and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def one(sid):
    d = os.path.join(ROOT, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    # build.sh and demos work on /repo itself: apply, test, undo
    demo = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            s = os.path.join(d, f)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(demo, f))
    try:
        base = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd="/repo", stdout=-1, stderr=-2, timeout=300)
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], "/repo")
        if r.returncode:
            return "does not apply: " + r.stdout.decode()
        try:
            b = sh(["bash", "/opt/vp/build.sh"], "/repo")
            t = sh(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], "/repo")
            tests = json.load(open("/tmp/seedtest.json"))
            bad = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd="/repo", stdout=-1, stderr=-2, timeout=300)
            res = ""
            if "check" in sys.argv:
                c = sh([sys.executable, "check.py", meta["property"], "quick"], ROOT)
                res = " check rc=%d %s" % (c.returncode, c.stdout.decode().strip().split("\n")[-2:] )
        finally:
            sh(["git", "checkout", "--", "."], "/repo")
            sh(["bash", "/opt/vp/build.sh"], "/repo")
        ok = base.returncode == 0 and bad.returncode != 0 and b.returncode == 0 and len(tests["passed"]) == 10
        return "%s build=%d tests=%d demo base=%d bad=%d%s%s" % (
            "GOOD" if ok else "BAD", b.returncode, len(tests["passed"]), base.returncode, bad.returncode, res,
            "" if ok else "\n" + base.stdout.decode()[-800:] + bad.stdout.decode()[-800:])
    finally:
        shutil.rmtree(demo)


for sid in sys.argv[1:]:
    if sid != "check":
        print(sid, one(sid), flush=True)
