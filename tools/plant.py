#!/usr/bin/env python3
"""plant.py BATCH: each entry of BATCH (a Python list of (id, property, needs, breaks, [(file, old, new)...])) is made
in a scratch copy of /repo, and kept as /verif/seeded/<id> with a demonstration made of the calls that show it.
Changes that the property's check misses are kept without a demonstration, and reported."""
import json
import os
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import harness as H  # noqa: E402
import campaigns  # noqa: E402

COMPARE = '''import sys
want, got = (open(f).read().split("\\n") for f in sys.argv[1:3])
if len(want) != len(got):
    sys.exit("answers are missing")
for k, (a, b) in enumerate(zip(want, got)):
    x, y = a.split(), b.split()
    if len(x) != len(y) or x[:1] != y[:1]:
        sys.exit("call %d: expected %s, observed %s" % (k, a[:300], b[:300]))
    if x[:1] == ["throw"]:
        continue
    for p, q in zip(x, y):
        try:
            u, v = float(p), float(q)
            ok = u == v or abs(u - v) <= 1e-9 * max(abs(u), abs(v)) + 1e-13 or (u != u and v != v)
        except ValueError:
            ok = p == q
        if not ok:
            sys.exit("call %d: expected %s, observed %s" % (k, a[:300], b[:300]))
'''


def one(sid, pid, needs, breaks, edits):
    d = os.path.join(ROOT, "seeded", sid)
    for f, old, new in edits:
        path = os.path.join(H.REPO, "src/resonanceReconstruction", f)
        text = open(path).read()
        if text.count(old) < 1:
            print("NO SUCH TEXT", sid, f)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=H.REPO)
            return
        open(path, "w").write(text.replace(old, new, 1))
    diff = subprocess.run(["git", "diff"], cwd=H.REPO, stdout=-1).stdout
    r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid, "quick"], cwd=ROOT, stdout=-1)
    print(sid, "check rc", r.returncode, r.stdout.decode()[-500:], flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=H.REPO)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if r.returncode != 1:
        print("MISSED", sid, flush=True)
        return 1
    rep = json.load(open(os.path.join(ROOT, "evidence", "replay-%s.json" % pid)))
    c = [c for c in campaigns.PROPERTIES[pid]["campaigns"] if c["name"] == rep["campaign"]][0]
    calls = "reset 0 0 0\n" + "\n".join(rep["calls"]) + "\n"
    exe = H.compile_driver(c["driver"], c["profile"])
    want = subprocess.run([exe], input=calls.encode(), stdout=-1).stdout
    open(os.path.join(d, "calls.txt"), "w").write(calls)
    open(os.path.join(d, "expected.txt"), "wb").write(want)
    open(os.path.join(d, "compare.py"), "w").write(COMPARE)
    for f in os.listdir(os.path.join(ROOT, "drivers")):
        if f.endswith(".hpp") or f == c["driver"] + ".cpp":
            shutil.copy(os.path.join(ROOT, "drivers", f), d)
    if c["profile"] == "slice":
        shutil.copy(os.path.join(ROOT, "lib", "slice.py"), d)
        build = 'python3 "$here/slice.py" src "$work/gen" && g++ $flags -DSLICE -I"$work/gen" -Isrc "$src" -o "$work/demo" || exit 2'
    else:
        shutil.copy(os.path.join(ROOT, "lib", "cut.py"), d)
        shutil.copytree(os.path.join(ROOT, "shim"), os.path.join(d, "shim"), dirs_exist_ok=True)
        build = ('{ python3 "$here/cut.py" src "$work/gen" %s && g++ $flags -DCUT -I"$work/gen" -I"$here/shim" -Isrc "$src" -o "$work/demo"; } || '
                 'g++ $flags -I"$here/shim" -Isrc "$src" -o "$work/demo" || exit 2' % c["profile"])
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# compiles a small program against src, makes the calls in calls.txt and compares the answers
# exit 0: the behaviour is right; 1: it is not
here=$(cd "$(dirname "$0")" && pwd); work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
flags="-std=c++17 -O0 -w -ffp-contract=off -I$here -I/usr/include/eigen3"; src="$here/%s.cpp"
%s
timeout 100 "$work/demo" < "$here/calls.txt" > "$work/answers.txt" 2>/dev/null
python3 "$here/compare.py" "$here/expected.txt" "$work/answers.txt" || exit 1
''' % (c["driver"], build))
    print("planted", sid, flush=True)


def main():
    batch = eval(open(sys.argv[1]).read())
    only = sys.argv[2:]
    for entry in batch:
        if not only or entry[0] in only:
            one(*entry)


assert H.REPO != "/repo", "set VERIF_REPO to a scratch copy"
main()
