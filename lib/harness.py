"""Shared machinery: run Quint specifications, build drivers from /repo, replay traces.

A specification step carries two records:

  call = { op: str, ints: List[int], reals: List[int], strs: List[str] }
  out  = { throws: bool, ints: List[int], reals: List[Real], strs: List[str] }

`call.reals` are exact dyadic rationals in units of 2^-192 (every one is exactly a double).
`out.reals` are { n, d, mag, per }: the value n/d, agreeing with the code when the difference is
at most EPS * max(|n/d|, mag) (mag in units of 2^-192), modulo pi if per = 1, modulo 2 pi if per = 2.

A driver is a C++ program built from the working tree of /repo. It reads one call per line and
answers one line per call. Calls of one trace share the driver's state; a "reset" starts a trace.
"""
import glob
import hashlib
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

sys.set_int_max_str_digits(0)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
CACHE = os.path.join(ROOT, ".cache")
ONE = 1 << 192
PI = Fraction(314159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798, 10**101)


class ToolError(Exception):
    """the machinery could not give an answer (never reported as a violation)"""


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(map(str, cmd)))


# ---------------------------------------------------------------- Quint

def unbig(x):
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#tup" in x:
            return tuple(unbig(y) for y in x["#tup"])
        if "#set" in x:
            return [unbig(y) for y in x["#set"]]
        if "#map" in x:
            return [(unbig(k), unbig(v)) for k, v in x["#map"]]
        return {k: unbig(v) for k, v in x.items() if k != "#meta"}
    if isinstance(x, list):
        return [unbig(y) for y in x]
    return x


def quint_test(files):
    """run the specifications' own `run ...Test` checks"""
    def one(f):
        r = sh(["quint", "test", "--main", os.path.basename(f)[:-4], os.path.join(SPEC, f)], timeout=600)
        if r.returncode != 0:
            raise ToolError("quint test %s failed:\n%s" % (f, r.stdout.decode(errors="replace")[-3000:]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, files))


def quint_run(main, steps, seed, samples=1, invariant=None, init="init", step="step", spec=None):
    """simulate; returns the list of traces (lists of states)"""
    spec = spec or main
    d = tempfile.mkdtemp(prefix="quint-")
    try:
        cmd = ["quint", "run", "--main", main, "--max-steps", str(steps), "--max-samples", str(samples),
               "--n-traces", str(samples), "--seed", hex(seed & 0xffffffffffff), "--init", init, "--step", step,
               "--out-itf", os.path.join(d, "t_{seq}.itf.json"), "--verbosity", "1"]
        if invariant:
            cmd += ["--invariant", invariant]
        cmd.append(os.path.join(SPEC, spec + ".qnt"))
        r = sh(cmd, timeout=840)
        if r.returncode != 0:
            raise ToolError("quint run %s failed (a specification error, not a finding about the code):\n%s"
                            % (main, r.stdout.decode(errors="replace")[-3000:]))
        traces = []
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f)) as h:
                itf = json.load(h)
            traces.append([unbig(s) for s in itf["states"]])
        if not traces:
            raise ToolError("quint run %s wrote no trace:\n%s" % (main, r.stdout.decode(errors="replace")[-2000:]))
        return traces
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quint_verify(main, invariant, steps, spec=None, timeout=800, init="init", step="step", extra=()):
    d = tempfile.mkdtemp(prefix="quintv-")
    port = 20000 + os.getpid() % 20000
    try:
        cmd = ["quint", "verify", "--main", main, "--invariant", invariant, "--max-steps", str(steps),
               "--init", init, "--step", step, "--server-endpoint", "localhost:%d" % port,
               *extra, os.path.join(SPEC, (spec or main) + ".qnt")]
        r = sh(cmd, timeout=timeout, cwd=d)
        if r.returncode != 0:
            raise ToolError("quint verify %s failed:\n%s" % (main, r.stdout.decode(errors="replace")[-3000:]))
    finally:
        subprocess.run(["pkill", "-f", "apalache.*--port=%d" % port], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- drivers

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(a, f) for a, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def compile_driver(name, profile=None, opt="-O0"):
    """compile drivers/<name>.cpp against /repo/src, return the program's path

    profile: "slice" (only what needs no njoy library), one of cut.py's, or None (everything)"""
    src = os.path.join(ROOT, "drivers", name + ".cpp")
    key = tree_hash([os.path.join(REPO, "src"), os.path.join(ROOT, "shim"), src,
                     *sorted(glob.glob(os.path.join(ROOT, "drivers", "*.hpp"))),
                     os.path.join(ROOT, "lib", "slice.py"), os.path.join(ROOT, "lib", "cut.py")])
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "%s@%s" % (name, key))
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    base = ["g++", "-std=c++17", opt, "-w", "-ffp-contract=off", "-I" + os.path.join(ROOT, "drivers")]
    shim, repo = "-I" + os.path.join(ROOT, "shim"), "-I" + os.path.join(REPO, "src")
    errors = []
    work = tempfile.mkdtemp(prefix="build-")
    try:
        out, gen = os.path.join(work, "driver"), os.path.join(work, "gen")
        attempts = [[shim, repo]]
        if profile == "slice":
            r = sh([sys.executable, os.path.join(ROOT, "lib", "slice.py"), os.path.join(REPO, "src"), gen])
            if r.returncode == 0:
                attempts.insert(0, ["-DSLICE", "-I" + gen, repo])
        elif profile:
            r = sh([sys.executable, os.path.join(ROOT, "lib", "cut.py"), os.path.join(REPO, "src"), gen, profile])
            if r.returncode == 0:
                attempts.insert(0, ["-DCUT", "-I" + gen, shim, repo])
        for inc in attempts:
            r = sh(base + inc + ["-I/usr/include/eigen3", src, "-o", out], timeout=800)
            if r.returncode == 0:
                for old in os.listdir(CACHE):
                    if old.startswith(name + "@") and time.time() - os.path.getmtime(os.path.join(CACHE, old)) > 7200:
                        try:
                            os.remove(os.path.join(CACHE, old))
                        except OSError:
                            pass
                tmp = exe + ".tmp%d" % os.getpid()
                shutil.copy(out, tmp)
                os.replace(tmp, exe)
                return exe
            errors.append("\n".join(l[:400] for l in r.stdout.decode(errors="replace").split("\n")
                                    if "error" in l)[:3000])
        raise ToolError("driver %s does not compile against the working tree:\n%s" % (name, "\n---\n".join(errors)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def to_double(n):
    """exact conversion of n * 2^-192"""
    f = Fraction(n, ONE)
    x = float(f)
    if Fraction(x) != f:
        raise ToolError("specification handed out a value that is not a double: %s" % f)
    return x


def encode(call):
    parts = [call["op"], str(len(call["ints"]))] + [str(i) for i in call["ints"]]
    parts += [str(len(call["reals"]))] + [to_double(r).hex() for r in call["reals"]]
    parts += [str(len(call["strs"]))] + ["".join(s).replace(" ", "~") or "-" for s in call["strs"]]
    return " ".join(parts)


def decode(line):
    t = line.split()
    if not t:
        raise ToolError("empty driver answer")
    if t[0] == "throw":
        return {"throws": True, "what": " ".join(t[1:]), "ints": [], "reals": [], "strs": []}
    if t[0] != "ok":
        raise ToolError("driver answered: " + line)
    i = 1
    res = {"throws": False}
    for k, conv in (("ints", int), ("reals", float), ("strs", str)):
        n = int(t[i])
        res[k] = [conv(x) for x in t[i + 1:i + 1 + n]]
        i += 1 + n
    return res


def drive(exe, traces_calls, timeout=600):
    """replay traces, each a list of calls; returns lists of answers, None from a crash on"""
    text = []
    for calls in traces_calls:
        text.append("reset 0 0 0")
        text.extend(encode(c) for c in calls)
    try:
        r = subprocess.run([exe], input=("\n".join(text) + "\n").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        raw, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        raw, rc = e.stdout or b"", "timeout"
    lines = raw.decode(errors="replace").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    elif lines:
        lines.pop()      # incomplete line
    if rc == 3:
        raise ToolError("driver error: " + r.stderr.decode(errors="replace")[-1000:])
    out, i = [], 0
    for calls in traces_calls:
        i += 1
        res = []
        for _ in calls:
            res.append(decode(lines[i]) if i < len(lines) else None)
            i += 1
        out.append(res)
    if rc not in (0, "timeout") and i <= len(lines):
        raise ToolError("driver exited %s after answering everything" % rc)
    return out, rc


# ---------------------------------------------------------------- comparison

def real_error(exp, got):
    """(difference, scale) of an expected and an observed real"""
    v = Fraction(exp["n"], exp["d"])
    if not math.isfinite(got):
        return None
    d = Fraction(got) - v
    if exp["per"]:
        p = PI if exp["per"] == 1 else 2 * PI
        d = d - round(d / p) * p
    return abs(d), max(abs(v), Fraction(exp["mag"], ONE))


def compare(exp, got, eps):
    """None if the observed answer is what the specification says, else a description"""
    if got is None:
        return "the code crashed or did not answer"
    if exp["throws"] != got["throws"]:
        return ("the specification refuses this call, the code answered %s" % summary(got) if exp["throws"]
                else "the code refused a call that the specification accepts (%s)" % got.get("what", ""))
    if exp["throws"]:
        return None
    want = {"ints": list(exp["ints"]), "strs": ["".join(x).replace(" ", "~") or "-" for x in exp["strs"]]}
    for k in ("ints", "strs"):
        if want[k] != list(got[k]):
            return "%s: expected %s, observed %s" % (k, want[k], got[k])
    if len(exp["reals"]) != len(got["reals"]):
        return "expected %d values, observed %d: %s" % (len(exp["reals"]), len(got["reals"]), got["reals"])
    for i, (e, g) in enumerate(zip(exp["reals"], got["reals"])):
        r = real_error(e, g)
        if r is None or r[0] > Fraction(eps) * r[1]:
            return "value %d: expected %.15g, observed %r (tolerance %g relative to %g)" % (
                i, float(Fraction(e["n"], e["d"])), g, eps, float(r[1]) if r else float("nan"))
    return None


def summary(got):
    return str(got["ints"] + got["reals"] + got["strs"])[:300]


def describe(call):
    return "%s ints=%s reals=%s strs=%s" % (call["op"], call["ints"], [to_double(r) for r in call["reals"]],
                                            call["strs"])
