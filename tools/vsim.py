#!/usr/bin/env python3
"""Deterministic simulation of DARMA/vt: driver.

  vsim.py setup                      build everything
  vsim.py check ID                   run the check of one property (VERIF_SEED, VERIF_TIER)
  vsim.py replay FILE                re-execute a replay file; exit 1 if it still fails
  vsim.py run WORKLOAD k=v ...       one run, for debugging
  vsim.py determinism [ID ...]       run many seeds twice in different processes
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props

VERIF = B.VERIF
BUILD = B.BUILD
M64 = (1 << 64) - 1
KINDS = ["jitter", "tail", "slow-link", "partition", "node-stall", "preemption",
         "priority-schedule", "rendezvous-send", "late-buffer-read", "slow-completion",
         "spurious-not-ready", "any-source-choice", "clock-skew-jump", "rma-reorder",
         "config-randomised", "disk-error", "job-crash"]
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "MALLOC_PERTURB_": "165", "VSIM": "1"}


def mix(a, b):
    z = (a * 0x9E3779B97F4A7C15 + b + 0x632BE59BD9B4E019) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def hstr(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & M64
    return h


class Die(Exception):
    pass


class Worker:
    """One vsim worker process."""

    def __init__(self, workload, scratch):
        os.makedirs(scratch, exist_ok=True)
        self.p = subprocess.Popen(
            [BUILD + "/vsim", BUILD + "/live/" + workload + ".", str(nlibs(workload)), scratch],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            env=ENV, text=True, encoding="utf-8", errors="replace")

    def run(self, line):
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            out = ""
        if not out:
            raise Die("simulator worker died: " + (self.p.stderr.read() or "")[-2000:])
        return json.loads(out)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.p.kill()


def nlibs(workload):
    """The largest number of nodes any check runs this workload with."""
    hi = [5]
    for p in props.ALL:
        if p["workload"] == workload:
            hi += [p["ranks"][1]] + [r[1] for r in p.get("mode_ranks", {}).values()]
    return max(hi)


def live_libs(workload):
    """Give every node its private copy of the rank library."""
    os.makedirs(BUILD + "/live", exist_ok=True)
    for i in range(nlibs(workload)):
        shutil.copyfile(BUILD + "/rank/%s.so" % workload, BUILD + "/live/%s.%d.so" % (workload, i))


def drop_libs(workload):
    for i in range(nlibs(workload)):
        try:
            os.unlink(BUILD + "/live/%s.%d.so" % (workload, i))
        except OSError:
            pass


def line_of(c):
    s = "seed=%d workload=%s ranks=%d mask=%d" % (c["seed"], c["mode"], c["ranks"], c["mask"])
    if c.get("horizon") is not None:
        s += " horizon=%d" % c["horizon"]
    for k in ("calm", "drop"):
        if c.get(k):
            s += " %s=%s" % (k, ",".join("%d-%d" % tuple(r) for r in c[k]))
    if c.get("params"):
        s += " params=" + ",".join("%s:%d" % kv for kv in sorted(c["params"].items()))
    for k in ("verbose", "keep", "soft", "hard"):
        if c.get(k):
            s += " %s=%d" % (k, c[k])
    return s


def config_for(prop, base, i):
    """The i-th run of a batch."""
    seed = mix(mix(base, hstr(prop["id"])), i) >> 1
    modes = prop["modes"]
    mode = modes[i % len(modes)]
    lo, hi = prop.get("mode_ranks", {}).get(mode, prop["ranks"])
    n = lo + mix(seed, 0xABCD) % (hi - lo + 1)
    c = {"seed": seed, "mode": mode, "ranks": n, "mask": prop.get("mask", M64)}
    for k in ("soft", "hard"):
        if k in prop:
            c[k] = prop[k]
    return c


def load_known(pid):
    out = []
    p = VERIF + "/known-findings.json"
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == pid:
                out.append(e)
    return out


def known_match(known, c, r):
    for e in known:
        if e.get("cls") and not re.fullmatch(e["cls"], r["cls"]):
            continue
        if e.get("mode") and e["mode"] != c["mode"]:
            continue
        text = r["msg"] + "\n" + r.get("tail", "")
        if e.get("match") and not re.search(e["match"], text, re.S):
            continue
        return e
    return None


def same(r, cls):
    return r["outcome"] == 2 and r["cls"] == cls


def minimise(workload, scratch, c, r, budget):
    """Shrink configuration, faults and operations while the class of the violation stays."""
    t_end = time.time() + budget
    cls = r["cls"]
    ws = [Worker(workload, scratch + "/m%d" % k) for k in range(8)]
    tried = [0]

    def attempt_many(cands):
        """First candidate (in order) that still fails, evaluated 8 at a time."""
        for k in range(0, len(cands), 8):
            if time.time() > t_end:
                return None
            part = cands[k:k + 8]
            res = [None] * len(part)

            def go(j):
                res[j] = ws[j].run(line_of(part[j]))
            th = [threading.Thread(target=go, args=(j,)) for j in range(len(part))]
            [t.start() for t in th]
            [t.join() for t in th]
            tried[0] += len(part)
            for j, x in enumerate(res):
                if x and same(x, cls):
                    return part[j], x
        return None

    def upd(found):
        nonlocal c, r
        if found:
            c, r = found
            return True
        return False

    try:
        # no faults at all?
        upd(attempt_many([dict(c, mask=0), dict(c, horizon=0)]))
        # fewer kinds of fault
        for _ in range(3):
            kinds = [k for k in range(len(KINDS)) if (r["mask"] >> k) & 1]
            cands = [dict(c, mask=(r["mask"] & ~(1 << k))) for k in kinds]
            if not cands or not upd(attempt_many(cands)):
                break
        # fewer nodes
        while c["ranks"] > 2 and upd(attempt_many([dict(c, ranks=n) for n in range(2, c["ranks"])])):
            pass
        # smaller parameters
        for _ in range(2):
            changed = False
            for name, (lo, hi, v) in sorted(r.get("params", {}).items()):
                if v > lo:
                    vals = sorted({lo, lo + (v - lo) // 4, lo + (v - lo) // 2, v - 1})
                    cands = [dict(c, params=dict(c.get("params", {}), **{name: x})) for x in vals if x < v]
                    changed |= upd(attempt_many(cands))
            if not changed:
                break
        # fewer operations (delta debugging over operation ranges)
        n = r.get("nops", 0)
        if n:
            keep = [True] * n
            for a, b in c.get("drop", []):
                for q in range(a, min(b, n)):
                    keep[q] = False

            def as_drop(kp):
                out, q = [], 0
                while q < n:
                    if not kp[q]:
                        s = q
                        while q < n and not kp[q]:
                            q += 1
                        out.append([s, q])
                    else:
                        q += 1
                return out
            chunk = max(1, n // 2)
            while True:
                changed = False
                q = 0
                while q < n:
                    cands = []
                    while q < n and len(cands) < 8:
                        if any(keep[q:q + chunk]):
                            kp = list(keep)
                            kp[q:q + chunk] = [False] * len(kp[q:q + chunk])
                            cands.append(dict(c, drop=as_drop(kp)))
                        q += chunk
                    if cands and upd(attempt_many(cands)):
                        changed = True
                        for a, b in c["drop"]:
                            for z in range(a, b):
                                keep[z] = False
                if time.time() > t_end:
                    break
                if not changed:
                    if chunk == 1:
                        break
                    chunk = max(1, chunk // 2)
        # as few steps with faults as possible
        if r["mask"]:
            lo, hi = 0, r["steps"]
            while hi - lo > 8 and time.time() < t_end:
                pts = sorted({lo + (hi - lo) * k // 9 for k in range(1, 9)})
                f = attempt_many([dict(c, horizon=p) for p in pts])
                if not f:
                    lo = pts[-1]
                    if lo >= hi - 8:
                        break
                    if c.get("horizon") is None and lo > r["steps"] * 8 // 9:
                        break
                    lo, hi = pts[-1], hi
                    continue
                upd(f)
                hi = c["horizon"]
                lo = max([p for p in pts if p < hi] + [lo])
    finally:
        [w.close() for w in ws]
    return c, r, tried[0]


def do_check(pid):
    t0 = time.time()
    prop = props.get(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    workload = prop["workload"]
    err = B.build([workload])
    if err:
        print(err[-6000:])
        raise Die("the simulated build of /repo failed")
    t_build = time.time() - t0
    live_libs(workload)
    scratch = tempfile.mkdtemp(prefix="vsim-", dir="/tmp")
    try:
        return run_check(prop, pid, tier, base, workload, scratch, t0, t_build)
    finally:
        drop_libs(workload)
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(prop, pid, tier, base, workload, scratch, t0, t_build):
    nw = 8
    known = load_known(pid)
    budget = prop["thorough_s"] if tier == "thorough" else prop["quick_s"]
    maxruns = prop.get("thorough_runs", 10**9) if tier == "thorough" else prop.get("quick_runs", 10**9)
    if os.environ.get("VSIM_BUDGET"):
        budget = float(os.environ["VSIM_BUDGET"])
    lock = threading.Lock()
    st = {"next": 0, "stop": False, "err": None}
    done, viol, known_hits, hashes = [], [], {}, {}
    recheck = []
    t1 = time.time()

    def loop(k):
        w = None
        try:
            w = Worker(workload, scratch + "/w%d" % k)
            while True:
                with lock:
                    i = st["next"]
                    if st["stop"] or i >= maxruns or time.time() - t1 > budget:
                        break
                    st["next"] += 1
                c = config_for(prop, base, i)
                r = w.run(line_of(c))
                if r["outcome"] == 3:
                    raise Die("simulator error in run %s: %s" % (line_of(c), r["msg"]))
                with lock:
                    done.append((i, c, r))
                    if r["outcome"] == 2:
                        e = known_match(known, c, r)
                        if e:
                            known_hits.setdefault(e["id"], []).append((c, r))
                        else:
                            viol.append((i, c, r))
                            st["stop"] = True
            # determinism: repeat some runs of the batch in this (other) process
            while True:
                with lock:
                    if not recheck:
                        break
                    c, h = recheck.pop()
                r = w.run(line_of(c))
                if r["hash"] != h:
                    raise Die("not deterministic: %s gave %s then %s" % (line_of(c), h, r["hash"]))
                with lock:
                    st["rechecked"] = st.get("rechecked", 0) + 1
        except Exception as ex:  # noqa
            with lock:
                st["err"] = st["err"] or ex
                st["stop"] = True
        finally:
            if w:
                w.close()

    th = [threading.Thread(target=loop, args=(k,)) for k in range(nw)]
    [t.start() for t in th]
    [t.join() for t in th]
    wall_runs = time.time() - t1
    if st["err"]:
        raise st["err"]
    # determinism sample, in fresh processes
    if not viol:
        sample = sorted(done, key=lambda d: mix(d[0], 7))[:prop.get("recheck", 16)]
        recheck.extend((c, r["hash"]) for _, c, r in sample)
        st["stop"] = True
        th = [threading.Thread(target=loop, args=(k,)) for k in (3, 4, 5, 6)]
        [t.start() for t in th]
        [t.join() for t in th]
        if st["err"]:
            raise st["err"]

    for e in known:
        hits = known_hits.get(e["id"], [])
        print("KNOWN-FINDING: property=%s %s (%d of %d runs)" % (pid, e["what"], len(hits), len(done)))

    code = 0
    vio = None
    if viol:
        viol.sort(key=lambda v: v[0])
        i, c, r = viol[0]
        ws = [Worker(workload, scratch + "/g%d" % k) for k in range(2)]
        rr = [ws[0].run(line_of(c)), ws[0].run(line_of(c)), ws[1].run(line_of(c))]
        [w.close() for w in ws]
        if any(x["hash"] != r["hash"] or not same(x, r["cls"]) for x in rr):
            raise Die("violation does not reproduce exactly: %s: %s" % (line_of(c), [(x["cls"], x["hash"]) for x in rr + [r]]))
        c2, r2, tries = minimise(workload, scratch, dict(c), r, prop.get("min_s", 45))
        w = Worker(workload, scratch + "/z")
        again = w.run(line_of(c2))
        w.close()
        if again["hash"] != r2["hash"] or not same(again, r["cls"]):
            raise Die("the minimised run does not reproduce exactly: " + line_of(c2))
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = VERIF + "/replays/%s-%d.json" % (pid, c["seed"])
        with open(path, "w") as f:
            json.dump({"property": pid, "workload": workload, "config": c2, "request": line_of(c2),
                       "class": r2["cls"], "message": r2["msg"], "tail": r2.get("tail", ""),
                       "hash": r2["hash"], "steps": r2["steps"], "simulated_ns": r2["now"],
                       "faults": {KINDS[k]: n for k, n in enumerate(r2["fired"]) if n},
                       "original": {"request": line_of(c), "class": r["cls"], "message": r["msg"], "hash": r["hash"],
                                    "steps": r["steps"]}, "minimisation_runs": tries}, f, indent=1)
        vio = path
        print("class: %s\nmessage: %s\noutput: %s" % (r2["cls"], r2["msg"], r2.get("tail", "")[-1200:]))
        print("minimised: %s (from %s)" % (line_of(c2), line_of(c)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1

    evidence(prop, pid, tier, base, done, known_hits, st, wall_runs, t0, t_build, 1 if viol else 0, vio)
    nrun = len(done)
    print("%s: %d runs in %.1f s (build %.1f s), %d distinct interleavings, %s" % (
        pid, nrun, wall_runs, t_build, len({distinct(c, r) for _, c, r in done}),
        "violation" if code else "no violation"))
    return code


def distinct(c, r):
    return (r["order"] if r["msgs"] else r["hash"], c["mode"], c["ranks"])


def evidence(prop, pid, tier, base, done, known_hits, st, wall_runs, t0, t_build, nviol, vio):
    n = len(done)
    fired = [0] * len(KINDS)
    runs_with = [0] * len(KINDS)
    probes = {}
    bymode = {}
    ranks = {}
    for _, c, r in done:
        for k, v in enumerate(r["fired"]):
            fired[k] += v
            runs_with[k] += 1 if v else 0
        for k, v in r["probes"].items():
            p = probes.setdefault(k, [0, 0])
            p[0] += v
            p[1] += 1
        bymode[c["mode"]] = bymode.get(c["mode"], 0) + 1
        ranks[str(c["ranks"])] = ranks.get(str(c["ranks"]), 0) + 1
    tot = lambda k: sum(r[k] for _, _, r in done)
    orders = {distinct(c, r) for _, c, r in done if r["msgs"] + r["steps"] > 50 or sum(r["probes"].values()) > 20}
    missing = [p for p in prop.get("probes", []) if p not in probes]
    samples = []
    for _, c, r in sorted(done, key=lambda d: d[0])[:3]:
        samples.append({"request": line_of(c), "steps": r["steps"], "simulated_ns": r["now"], "messages": r["msgs"],
                        "hash": r["hash"], "faults": {KINDS[k]: v for k, v in enumerate(r["fired"]) if v},
                        "probes": dict(list(r["probes"].items())[:12])})
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(orders),
        "rule": "one evaluation = one simulated execution of the whole runtime on N nodes, generated from one seed "
                "(workload, options, schedule, faults). Distinct = different hash of the order in which messages and "
                "one-sided operations were matched (plus mode and N), or, for runs of one component without messages, a different "
                "hash of its recorded operations; non-trivial = more than 50 scheduler steps and messages, or more than 20 checks reached.",
        "samples": samples,
        "runs_per_hour": int(n / wall_runs * 3600) if wall_runs > 0 else 0,
        "seeds": n,
        "simulated_seconds": round(tot("now") * 1e-9, 3) if n else 0,
        "scheduler_steps": tot("steps"), "messages": tot("msgs"), "message_bytes": tot("bytes"),
        "context_switches": tot("switches"), "collectives": tot("colls"), "one_sided_operations": tot("rma"),
        "logged_events": tot("events"),
        "faults_injected": {KINDS[k]: {"times": fired[k], "runs": runs_with[k]} for k in range(len(KINDS))},
        "runs_without_any_fault": sum(1 for _, _, r in done if not any(r["fired"])),
        "probes": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
        "probes_expected_but_not_reached": missing,
        "modes": bymode, "nodes": ranks,
        "repeated_for_determinism": st.get("rechecked", 0),
        "known_findings_hit": {k: len(v) for k, v in known_hits.items()},
        "real_components": prop["real"],
        "stubbed_components": props.STUBS,
        "build_s": round(t_build, 1),
    }
    if vio:
        cov["replay"] = vio
    ev = {"property": pid, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
          "assumptions": props.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/.%s.tmp" % pid
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % pid)


def do_replay(path):
    x = json.load(open(path))
    err = B.build([x["workload"]])
    if err:
        print(err[-4000:])
        raise Die("build failed")
    live_libs(x["workload"])
    scratch = tempfile.mkdtemp(prefix="vsim-", dir="/tmp")
    try:
        w = Worker(x["workload"], scratch + "/r0")
        r = w.run(x["request"])
        w.close()
    finally:
        drop_libs(x["workload"])
        shutil.rmtree(scratch, ignore_errors=True)
    print("outcome=%d class=%s hash=%s (recorded %s %s)" % (r["outcome"], r["cls"], r["hash"], x["class"], x["hash"]))
    print(r["msg"])
    if same(r, x["class"]):
        print("REPRODUCED" + (" exactly" if r["hash"] == x["hash"] else " (different history: the code changed)"))
        return 1
    return 0


def do_run(workload, kv):
    B_err = B.build([workload])
    if B_err:
        print(B_err[-6000:])
        raise Die("build failed")
    live_libs(workload)
    c = dict(x.split("=", 1) for x in kv)
    scratch = c.pop("scratch", "/tmp/vsrun")
    line = " ".join("%s=%s" % i for i in c.items())
    w = Worker(workload, scratch)
    r = w.run(line + " keep=1")
    w.close()
    tail = r.pop("tail", "")
    print(json.dumps(r, indent=None))
    print(tail)
    return 0


def do_determinism(ids):
    n = int(os.environ.get("N", "200"))
    bad = 0
    for pid in ids or [p["id"] for p in props.ALL]:
        prop = props.get(pid)
        err = B.build([prop["workload"]])
        if err:
            raise Die(err[-3000:])
        live_libs(prop["workload"])
        scratch = tempfile.mkdtemp(prefix="vsim-", dir="/tmp")
        cfgs = [config_for(prop, 1000 + int(os.environ.get("VERIF_SEED", "1")), i) for i in range(n)]
        res = {}

        def go(k, tag, sub):
            w = Worker(prop["workload"], scratch + "/%s%d" % (tag, k))
            for q, i in enumerate(sub):
                if q % 16 == 15:
                    w.close()
                    w = Worker(prop["workload"], scratch + "/%s%d" % (tag, k))
                res[(tag, i)] = w.run(line_of(cfgs[i]))
            w.close()
        for tag, nw in (("a", 8), ("b", 3)):
            th = [threading.Thread(target=go, args=(k, tag, list(range(n))[k::nw])) for k in range(nw)]
            [t.start() for t in th]
            [t.join() for t in th]
        for i in range(n):
            if res[("a", i)]["hash"] != res[("b", i)]["hash"]:
                bad += 1
                print("DIFFERS", pid, line_of(cfgs[i]), res[("a", i)]["cls"], res[("b", i)]["cls"])
        oc = {}
        for i in range(n):
            oc[res[("a", i)]["cls"]] = oc.get(res[("a", i)]["cls"], 0) + 1
        print(pid, n, "seeds twice, outcomes", oc)
        drop_libs(prop["workload"])
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        err = B.build(sorted({p["workload"] for p in props.ALL}), quiet=True)
        if err:
            print(err[-8000:])
            return 2
        return 0
    if a[0] == "check":
        return do_check(a[1])
    if a[0] == "replay":
        return do_replay(a[1])
    if a[0] == "run":
        return do_run(a[1], a[2:])
    if a[0] == "determinism":
        return do_determinism(a[1:])
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Die as e:
        print("ERROR: %s" % e)
        sys.exit(3)
