#!/usr/bin/env python3
"""Decide one property:  check.py <property> quick|thorough

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it did not.
Any other exit: no answer (a tool, specification or build problem)."""
import json
import os
import random
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness as H  # noqa: E402
import campaigns  # noqa: E402

KNOWN = os.path.join(H.ROOT, "known_findings.json")
EVIDENCE = os.path.join(H.ROOT, "evidence")


def known_ids(pid):
    with open(KNOWN) as f:
        return {k["id"]: k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "open"}


class Result:
    def __init__(self):
        self.states = self.traces = self.calls = 0
        self.ops = {}
        self.violations = []
        self.known = {}
        self.samples = []
        self.distinct = set()
        self.worst = 0.0
        self.refusals = 0


def judge(c, trace_states, answers, res, known):
    """compare one replayed trace; returns the first disagreement or None"""
    eps = c.get("eps", 1e-9)
    for k, (st, got) in enumerate(zip(trace_states, answers)):
        exp = st["out"]
        e = c["eps_op"].get(st["call"]["op"], eps) if "eps_op" in c else eps
        bad = H.compare(exp, got, e)
        res.calls += 1
        res.ops[st["call"]["op"]] = res.ops.get(st["call"]["op"], 0) + 1
        if exp["throws"]:
            res.refusals += 1
        if bad is None:
            continue
        dev = st.get("deviation")
        if dev and dev["id"] and dev["id"] in known and H.compare(dev["out"], got, e) is None:
            res.known.setdefault(dev["id"], [0, st["call"]])[0] += 1
            continue
        return k, bad
    return None


def replay_states(trace):
    return [s for s in trace if s["call"]["op"] != "none"]


def generate(c, tier, seed, pool):
    """start producing a campaign's behaviours and its driver; returns the futures"""
    n = c[tier]
    # reading a specification takes long: several behaviours per process
    runs = n.get("runs", 1)
    workers = min(runs, n.get("workers", 8 if tier == "quick" else 32))
    jobs = [(seed * 1000003 + 7919 * i + len(c["name"]), runs // workers + (i < runs % workers)) for i in range(workers)]

    def gen(job):
        return H.quint_run(c["main"], n["steps"], job[0], job[1], c.get("invariant"),
                           c.get("init", "init"), c.get("step", "step"), c.get("spec"))
    return [pool.submit(gen, j) for j in jobs]


def run_campaign(pid, c, tier, futures, exe, res, known):
    n = c[tier]
    traces = [t for f in futures for t in f.result()]
    exe = exe.result()
    keep = c.get("ops")
    states = []
    for t in traces:
        st = replay_states(t)
        if keep:
            st = [s for s in st if s["call"]["op"] in keep]
        if st:
            states.append(st)
    total = sum(len(s) for s in states)
    if total < n.get("least", 1):
        raise H.ToolError("campaign %s explored only %d calls" % (c["name"], total))
    seen = {s["call"]["op"] for t in states for s in t}
    for op in c.get("must", []):
        if op not in seen:
            raise H.ToolError("campaign %s never exercised %s" % (c["name"], op))
    # spread the replay over processes
    parts = [states[i::8] for i in range(8)] if len(states) >= 8 else [states]
    parts = [p for p in parts if p]

    def drive(p):
        return p, H.drive(exe, [[s["call"] for s in t] for t in p])
    with ThreadPoolExecutor(8) as ex:
        driven = list(ex.map(drive, parts))
    for part, (answers, rc) in driven:
        for t, a in zip(part, answers):
            res.traces += 1
            res.states += len(t)
            bad = judge(c, t, a, res, known)
            if bad:
                k, why = bad
                # repeat in isolation before believing it
                again, _ = H.drive(exe, [[s["call"] for s in t[:k + 1]]])
                scratch = Result()
                b2 = judge(c, t[:k + 1], again[0], scratch, known)
                if b2 is None:
                    # depends on what ran before in the same process: replay the whole part
                    ans2, _ = H.drive(exe, [[s["call"] for s in x] for x in part])
                    if not any(judge(c, x, y, scratch, known) for x, y in zip(part, ans2)):
                        raise H.ToolError("a rejection did not repeat: %s" % why)
                res.violations.append((c["name"], t[:k + 1], why))
                if len(res.violations) >= 5:
                    return
    # the comparison must be able to fail: corrupt one prediction and expect a rejection
    if not res.violations:
        check_binding(c, states, driven, known)
    for t in states[:3]:
        for s in t[:2]:
            if len(res.samples) < 12:
                res.samples.append("%s -> %s" % (H.describe(s["call"]), brief(s["out"])))
    for t in states:
        for s in t:
            res.distinct.add(json.dumps([s["call"]["op"], s["call"]["ints"], s["call"]["reals"],
                                         ["".join(x) for x in s["call"]["strs"]]]))


def brief(out):
    if out["throws"]:
        return "refused"
    return "%s" % ([float(x["n"]) / float(x["d"]) if x["d"] < 10**300 else 0. for x in out["reals"]][:8]
                   + out["ints"][:8] + ["".join(t) for t in out["strs"]][:4])


def check_binding(c, states, driven, known):
    rnd = random.Random(1)
    for part, (answers, _) in driven:
        for t, a in zip(part, answers):
            for s, g in zip(t, a):
                o = s["out"]
                bad = json.loads(json.dumps(o))
                if o["reals"]:
                    i = rnd.randrange(len(o["reals"]))
                    r = bad["reals"][i]
                    r["n"] = r["n"] * 1001 // 1000 + max(1, r["mag"] * r["d"] // H.ONE // 100 + (r["d"] if r["n"] == 0 else 0))
                elif o["ints"]:
                    bad["ints"][0] += 1
                elif o["strs"]:
                    bad["strs"][0] = list(bad["strs"][0]) + ["x"]
                else:
                    bad["throws"] = not bad["throws"]
                if H.compare(bad, g, c.get("eps_op", {}).get(s["call"]["op"], c.get("eps", 1e-9))) is None:
                    if s.get("deviation", {}).get("id"):
                        continue
                    raise H.ToolError("binding check: a corrupted prediction was accepted (%s)" % H.describe(s["call"]))
                return


def write_replay(pid, name, states, why):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, "replay-%s.json" % pid)
    with open(path, "w") as f:
        json.dump({"property": pid, "campaign": name, "why": why,
                   "calls": [H.encode(s["call"]) for s in states],
                   "last_call": H.describe(states[-1]["call"]) if states else "",
                   "expected": brief(states[-1]["out"]) if states else ""}, f, indent=1)
    return path


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = campaigns.PROPERTIES[pid]
    known = known_ids(pid)
    res = Result()
    try:
        with ThreadPoolExecutor(9) as pool:
            use = [c for c in prop["campaigns"] if tier in c]
            drivers = {}
            for c in use:
                if c["driver"] not in drivers:
                    drivers[c["driver"]] = pool.submit(H.compile_driver, c["driver"], c.get("profile"))
            tests = pool.submit(H.quint_test, sorted({(c.get("spec") or c["main"]) + ".qnt" for c in use}))
            pending = [(c, generate(c, tier, seed, pool)) for c in use]
            try:
                for c, futures in pending:
                    run_campaign(pid, c, tier, futures, drivers[c["driver"]], res, known)
                    if res.violations:
                        break
                if not res.violations:
                    tests.result()
            finally:
                for _, futures in pending:
                    for f in futures:
                        f.cancel()
        verified = []
        for v in prop.get("verify", []):
            if tier in v["tiers"] and not res.violations:
                H.quint_verify(v["main"], v["invariant"], v["steps"], v.get("spec"), init=v.get("init", "init"),
                               step=v.get("step", "step"))
                verified.append("%s: %s holds in every behaviour of up to %d steps (Apalache)"
                                % (v["main"], v["invariant"], v["steps"]))
    except H.ToolError as e:
        print("NO ANSWER property=%s: %s" % (pid, e))
        return 2
    for k, (n, call) in sorted(res.known.items()):
        print("KNOWN-FINDING: property=%s %s (%d calls, e.g. %s)" % (pid, known[k]["what"], n, H.describe(call)))
    os.makedirs(EVIDENCE, exist_ok=True)
    paths = []
    for name, states, why in res.violations[:1]:
        paths.append(write_replay(pid, name, states, why))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop["level"],
          "coverage": {"states": len(res.distinct), "transitions": res.calls, "traces_validated_against_impl": res.traces,
                       "calls_by_operation": res.ops, "expected_refusals": res.refusals,
                       "samples": res.samples, "specification_checks": verified,
                       "known_findings": {k: v[0] for k, v in res.known.items()}},
          "wall_s": round(time.time() - t0, 2), "assumptions": prop.get("assumptions", []),
          "violations": len(res.violations), "rejected": [{"campaign": n, "why": w} for n, _, w in res.violations]}
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, states, why in res.violations:
        print("in %s, after %d calls: %s\n  %s" % (name, len(states), H.describe(states[-1]["call"]), why))
    if res.violations:
        print("VIOLATION property=%s replay=%s" % (pid, paths[0]))
        return 1
    print("held: property=%s %d traces, %d calls (%d distinct) in %.1f s"
          % (pid, res.traces, res.calls, len(res.distinct), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
