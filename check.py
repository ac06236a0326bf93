#!/opt/venv/bin/python
"""Entry point of the deterministic simulation checks.

  check.py run C01 [quick|thorough]    decide one property
  check.py replay FILE                 re-execute a replay file
  check.py determinism [C01 ...]       run seeds twice under other hash seeds
                                       and worker counts and diff the logs
"""

import atexit
import copy
import hashlib
import importlib
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
if not os.path.exists(PY):
    PY = sys.executable
TIERS = {"quick": (75, 75), "thorough": (600, 660)}
HASHSEEDS = ["0", "1", "7", "42", "1000", "31337", "99", "5"]


def scratch_base():
    """a directory for everything the runs of this invocation touch; its name
    has a fixed length, as file names show up in wrapped terminal output"""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="vs", dir="/tmp")
        atexit.register(remove_scratch, SCRATCH, os.getpid())
    return SCRATCH


def remove_scratch(path, pid):
    if os.getpid() == pid and os.path.basename(path).startswith("vs") and os.path.dirname(path) == "/tmp":
        for d, dirs, files in os.walk(path):
            for x in dirs:
                try:
                    os.chmod(os.path.join(d, x), 0o700)
                except OSError:
                    pass
        shutil.rmtree(path, ignore_errors=True)


SCRATCH = None


def env(hashseed):
    e = dict(os.environ)
    e["VERIF_SCRATCH"] = scratch_base()
    e["PYTHONHASHSEED"] = hashseed
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["TZ"] = "UTC"
    e.pop("PYXRC", None)
    e.pop("PYTHONPATH", None)
    return e


def worker_cmd(*args):
    return [PY, "-W", "ignore", os.path.join(VERIF, "sim", "worker.py")] + [str(a) for a in args]


class Server:
    """a fresh interpreter executing (plan, sched) requests"""

    def __init__(self, check, hashseed):
        self.p = subprocess.Popen(worker_cmd("serve", check), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env(hashseed), cwd=VERIF)
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker does not start")

    def run(self, plan, sched=None, seed=None):
        self.p.stdin.write((json.dumps({"plan": plan, "sched": sched, "seed": seed}) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def known_match(known, prop, violation):
    import re
    cls, detail = violation
    for k in known:
        if k["property"] == prop and k["status"] == "open" and k["class"] == cls and re.search(k["match"], detail, re.S):
            return k
    return None


def vclass(v):
    return v[0]


def minimise(server, plan, sched, cls, deadline, known, prop):
    """smallest plan and schedule with the same violation class"""
    tries = 0

    def test(p, s):
        nonlocal tries
        if time.monotonic() > deadline:
            return None
        tries += 1
        r = server.run(p, s)
        if r.get("error"):
            return None
        for v in r.get("violations") or []:
            if v[0] == cls and not known_match(known, prop, v):
                return r
        return None

    best, bs = plan, sched
    for rnd in range(3):
        changed = False
        for key in ("ops", "faults"):
            lst = best.get(key)
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = dict(best)
                    cand[key] = lst[:i] + lst[i+n:]
                    r = test(cand, bs)
                    if r is None and bs:
                        r = test(cand, [])
                    if r is not None:
                        best, bs = cand, r["sched"]
                        lst = cand[key]
                        changed = True
                    else:
                        i += n
                if time.monotonic() > deadline:
                    break
                n //= 2
        # simpler configuration values
        for key, val in sorted((best.get("simple") or {}).items()):
            cur = best
            parts = key.split(".")
            for q in parts[:-1]:
                cur = cur.get(q, {})
            if cur.get(parts[-1]) == val:
                continue
            cand = copy.deepcopy(best)
            cur = cand
            for q in parts[:-1]:
                cur = cur.setdefault(q, {})
            cur[parts[-1]] = val
            r = test(cand, bs)
            if r is None and bs:
                r = test(cand, [])
            if r is not None:
                best, bs = cand, r["sched"]
                changed = True
        # schedule: shortest prefix, then zeros
        if bs:
            r = test(best, [])
            if r is not None:
                bs = []
            else:
                lo, hi = 0, len(bs)
                while lo < hi and time.monotonic() < deadline:
                    mid = (lo + hi) // 2
                    if test(best, bs[:mid]) is not None:
                        hi = mid
                    else:
                        lo = mid + 1
                if test(best, bs[:hi]) is not None:
                    bs = bs[:hi]
                n = max(1, len(bs) // 2)
                while n >= 1 and bs and time.monotonic() < deadline:
                    for i in range(0, len(bs), n):
                        if any(bs[i:i+n]):
                            cand = bs[:i] + [0]*len(bs[i:i+n]) + bs[i+n:]
                            if test(best, cand) is not None:
                                bs = cand
                    if n == 1:
                        break
                    n //= 2
                while bs and bs[-1] == 0:
                    bs = bs[:-1]
        if not changed or time.monotonic() > deadline:
            break
    return best, bs, tries


def retry(prop, hashseed, plan, sched, cls, known, n=15):
    """execute a run in fresh processes until the violation is seen"""
    for i in range(n):
        srv = Server(prop, hashseed)
        try:
            for j in range(3):
                r = srv.run(plan, sched)
                if any(x[0] == cls and not known_match(known, prop, x) for x in r.get("violations") or []):
                    return r
        finally:
            srv.close()
    return None


def write_replay(prop, plan, sched, violation, hashseed, seed, idx, res, tries, address=False):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "class": violation[0], "detail": violation[1], "plan": plan, "sched": sched,
            "hashseed": hashseed, "found_by": {"VERIF_SEED": seed, "run": idx}, "minimiser_executions": tries,
            "log_hash": res.get("log_hash"), "faults": res.get("faults"), "trace": res.get("events")}
    if address:
        body["depends_on_addresses"] = True
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps([plan, sched, violation[0]], sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def run_check(prop, tier):
    sys.path.insert(0, VERIF)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(os.path.join(VERIF, "checks", "config.json")))[prop]
    t0 = time.monotonic()
    W = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))
    count = cfg["runs"][tier]
    wall = cfg.get("wall", {}).get(tier, TIERS[tier][0])
    if os.environ.get("VERIF_RUNS"):
        count = int(os.environ["VERIF_RUNS"])
    again = cfg.get("again", 12)
    procs = []
    for w in range(W):
        procs.append(subprocess.Popen(worker_cmd("batch", prop, tier, seed, w, W, count, wall, again),
                                      stdout=subprocess.PIPE, env=env(HASHSEEDS[w % len(HASHSEEDS)]), cwd=VERIF, start_new_session=True))
    sel = selectors.DefaultSelector()
    bufs = {}
    for p in procs:
        sel.register(p.stdout, selectors.EVENT_READ, p)
        bufs[p.stdout] = b""
    results, again_r, errors, bad, samples = {}, [], [], [], []
    ended = 0
    known = load_known()
    hard = time.monotonic() + wall + 170
    agg = {"faults": {}, "probes": {}, "stats": {}}
    keys, scheds = set(), set()
    nruns = nontriv = 0
    simtime = steps = switches = 0
    distinct_nt = set()
    while bufs and time.monotonic() < hard:
        for key, _ in sel.select(5):
            d = os.read(key.fileobj.fileno(), 1 << 20)
            if not d:
                sel.unregister(key.fileobj)
                del bufs[key.fileobj]
                continue
            bufs[key.fileobj] += d
            while b"\n" in bufs[key.fileobj]:
                line, bufs[key.fileobj] = bufs[key.fileobj].split(b"\n", 1)
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if "end" in m:
                    ended += 1
                elif "again" in m:
                    again_r.append(m)
                elif "i" in m:
                    nruns += 1
                    if "error" in m:
                        errors.append(m)
                        continue
                    results[m["i"]] = m["log_hash"]
                    for k in agg:
                        for a, b in m.get(k, {}).items():
                            agg[k][a] = agg[k].get(a, 0) + b
                    simtime += m["sim_time"]
                    steps += m["steps"]
                    switches += m["switches"]
                    scheds.add(m["sched_hash"])
                    if m["nontrivial"]:
                        nontriv += 1
                        distinct_nt.add(m["keyhash"])
                    if m.get("violations"):
                        bad.append(m)
                    elif "plan" in m:
                        samples.append({"run": m["i"], "plan": m["plan"], "log_hash": m["log_hash"]})
        if bad and not cfg.get("exhaust_on_violation") and len([b for b in bad if any(not known_match(known, prop, v) for v in b["violations"])]) >= 6:
            break
    for p in procs:
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        p.stdout.close()
    explore_s = time.monotonic() - t0
    nondet = [m for m in again_r if m["again"] in results and m["log_hash"] != results[m["again"]]]

    # violations
    known_seen = {}
    classes = {}
    for m in sorted(bad, key=lambda m: m["i"]):
        for v in m["violations"]:
            k = known_match(known, prop, v)
            if k is not None:
                known_seen.setdefault(k["id"], (k, m))
            else:
                classes.setdefault(vclass(v), []).append((m, v))
    status = 0
    reported = 0
    unrepro = []
    mintime = cfg.get("minimise", {"quick": 60, "thorough": 240}[tier])

    def find(r, cls):
        return [x for x in (r.get("violations") or []) if x[0] == cls and not known_match(known, prop, x)]

    def report(cls, m, v):
        """minimise and write down a violation, False when it does not show up again"""
        plan, sched, tries, address = m["plan"], m["sched"], 0, False
        srv = Server(prop, m["hashseed"])
        try:
            r = srv.run(plan, sched)
            hit = find(r, cls)
            if hit and cls != "hang":
                plan, sched, tries = minimise(srv, plan, sched, cls, time.monotonic() + mintime / max(1, min(4, len(classes))), known, prop)
        finally:
            srv.close()
        if hit:
            # a fresh process has to fail in the same way
            srv = Server(prop, m["hashseed"])
            try:
                r = srv.run(plan, sched)
                hit = find(r, cls)
                if not hit:
                    plan, sched = m["plan"], m["sched"]
                    r = srv.run(plan, sched)
                    hit = find(r, cls)
            finally:
                srv.close()
        if not hit:
            # code whose result depends on the addresses of objects (like
            # the order of a set of instances) differs between processes
            r = retry(prop, m["hashseed"], m["plan"], m["sched"], cls, known)
            if r is None:
                return False
            plan, sched, tries, address = m["plan"], m["sched"], 0, True
            hit = find(r, cls)
        path = write_replay(prop, plan, sched, hit[0], m["hashseed"], seed, m["i"], r, tries, address=address)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (cls, hit[0][1][:600].replace("\n", "\n  ")))
        if address:
            print("  (the result depends on memory addresses: it is seen in some processes only)")
        return True

    for cls, found in sorted(classes.items(), key=lambda kv: kv[1][0][0]["i"])[:4]:
        for m, v in found[:3]:
            try:
                ok = report(cls, m, v)
            except RuntimeError as e:
                errors.append({"i": m["i"], "error": str(e)})
                continue
            if ok:
                reported += 1
                status = 1
                break
            unrepro.append((m["i"], cls, v[1]))
    for k, (f, m) in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    # the listed findings are re-demonstrated on every run
    for f in known:
        if f["property"] == prop and f["status"] == "open" and f["id"] not in known_seen and f.get("replay"):
            srv = Server(prop, f["replay"].get("hashseed", "0"))
            try:
                r = srv.run(f["replay"]["plan"], f["replay"]["sched"])
            finally:
                srv.close()
            for v in r.get("violations") or []:
                if known_match(known, prop, v) is f:
                    print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
                    break
            else:
                print("note: known finding %s was not seen in this run" % f["id"])
    wall_s = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nruns - len(errors),
            "distinct_nontrivial": len(distinct_nt),
            "rule": cfg["rule"],
            "samples": samples[:3] or [{"run": b["i"], "plan": b["plan"]} for b in bad[:1]],
            "simulated_runs_per_hour": int((nruns - len(errors)) / explore_s * 3600),
            "seeds": "one derived seed per run, so seeds per hour are runs per hour",
            "simulated_seconds": round(simtime, 1),
            "scheduler_steps": steps,
            "context_switches": switches,
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "hash of the sequence of tasks chosen by the scheduler",
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "counters": dict(sorted(agg["stats"].items())),
            "workers": W,
            "planned_runs": count,
            "determinism_recheck": {"reexecuted_under_other_hash_seed": len([m for m in again_r if m["again"] in results]), "different_logs": len(nondet)},
            "components_real": cfg["real"],
            "components_stub": cfg["stub"],
            "known_findings_seen": sorted(known_seen),
            "harness_errors": len(errors),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall_s, 1),
        "violations": reported,
    }
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial, %d interleavings), %.0f simulated s, faults %s, %d re-executed / %d different, %.0f s"
          % (prop, tier, nruns, len(distinct_nt), len(scheds), simtime, sum(agg["faults"].values()), len(again_r), len(nondet), wall_s))
    for m in nondet[:3]:
        print("warning: run %d differs when executed again" % m["again"], file=sys.stderr)
    for u in unrepro[:3]:
        print("warning: run %d: %s did not reproduce (%s)" % u, file=sys.stderr)
    for m in errors[:3]:
        print("harness error in run %s:\n%s\nplan %s" % (m["i"], m["error"], json.dumps(m.get("plan"))[:1500]), file=sys.stderr)
    if status == 0:
        # runs which could not be judged do not count as explored
        if len(errors) > max(2, nruns // 200):
            return 3
        if unrepro:
            return 4
        if ended < W or nruns == 0:
            print("a worker did not finish", file=sys.stderr)
            return 5
    return status


def replay(path):
    with open(path) as f:
        b = json.load(f)
    for attempt in range(15 if b.get("depends_on_addresses") else 1):
        srv = Server(b["property"], b["hashseed"])
        try:
            r = srv.run(b["plan"], b["sched"])
        finally:
            srv.close()
        if any(v[0] == b["class"] for v in r.get("violations") or []):
            break
    if r.get("error"):
        print(r["error"])
        return 3
    for e in r["events"]:
        print(e)
    for v in r["violations"]:
        if v[0] == b["class"]:
            print("VIOLATION property=%s replay=%s" % (b["property"], path))
            print("  %s: %s" % tuple(v))
            print("  log %s as recorded" % ("exactly" if r["log_hash"] == b["log_hash"] else "NOT"))
            return 1
    print("not reproduced")
    return 0


def setup():
    """nothing to compile: start one worker, to see that everything is there"""
    srv = Server("C01", "0")
    srv.close()
    print("ok")
    return 0


def determinism(props, n=400):
    cfg = json.load(open(os.path.join(VERIF, "checks", "config.json")))
    rc = 0
    for prop in props or sorted(cfg):
        maps = []
        for W, hs in ((8, "0"), (5, "random-per-worker"), (3, "12345")):
            ps = [subprocess.Popen(worker_cmd("batch", prop, "quick", os.environ.get("VERIF_SEED", 1), w, W, n, 1000, 0), stdout=subprocess.PIPE,
                                   env=env(hs if hs.isdigit() else str(1000+17*w)), cwd=VERIF) for w in range(W)]
            d = {}
            for p in ps:
                for line in p.stdout.read().splitlines():
                    m = json.loads(line)
                    if "i" in m:
                        d[m["i"]] = m.get("log_hash") or m.get("error")
                p.wait()
            maps.append(d)
        diff = [i for i in maps[0] if any(m.get(i) != maps[0][i] for m in maps)]
        print(prop, len(maps[0]), "runs x 3,", len(diff), "different", diff[:8])
        rc |= bool(diff)
    return rc


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "run":
        sys.exit(run_check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")))
    elif a[0] == "setup":
        sys.exit(setup())
    elif a[0] == "replay":
        sys.exit(replay(a[1]))
    elif a[0] == "determinism":
        sys.exit(determinism(a[1:]))
