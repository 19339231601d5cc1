"""Drives worker processes: seeded runs, minimisation, replay, evidence."""
import collections
import hashlib
import importlib
import json
import os
import queue
import random
import subprocess
import threading
import time

from . import stage as st

NW = int(os.environ.get("SIM_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))


def no_aslr():
    """addresses are part of an execution: without randomised layouts a run has the same ones every time (where allowed)"""
    try:
        a, b = [subprocess.run(["setarch", "-R", "sh", "-c", "head -1 /proc/self/maps"], capture_output=True, timeout=20) for _ in range(2)]
        return ["setarch", "-R"] if a.returncode == 0 and a.stdout == b.stdout else []
    except Exception:
        return []


PREFIX = no_aslr()


class Worker:
    def __init__(self, stg, prop, hashseed, outq, tag="0"):
        env = dict(os.environ)
        env.update(LD_PRELOAD=stg.fsim, PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", HDF5_USE_FILE_LOCKING="FALSE")
        env["PYTHONPATH"] = stg.path + ":" + st.VERIF
        self.stg, self.prop, self.env, self.outq, self.hashseed, self.tag = stg, prop, env, outq, hashseed, tag
        self.task = None
        self.start()

    def start(self):
        err = None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL
        self.errf = open(os.path.join(self.stg.dir, "worker-%d.err" % id(self)), "wb") if err is not None else None
        self.p = subprocess.Popen(PREFIX + [st.PY, "-m", "sim.worker", self.stg.path, self.stg.scratch, self.stg.fsim, self.prop, self.tag], cwd=st.VERIF, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, text=True, bufsize=1)
        line = self.p.stdout.readline()
        if not line or not json.loads(line).get("ready"):
            msg = ""
            if self.errf:
                msg = open(self.errf.name, errors="replace").read()[-3000:]
            raise RuntimeError("worker did not start: " + msg)
        self.th = threading.Thread(target=self._read, daemon=True)
        self.th.start()

    def _read(self):
        for line in self.p.stdout:
            self.outq.put((self, json.loads(line)))
        self.outq.put((self, None))

    def send(self, task):
        self.task = task
        self.p.stdin.write(json.dumps(task) + "\n")
        self.p.stdin.flush()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.terminate()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Farm:
    def __init__(self, stg, prop, nw=NW, hashseeds=None, tag=""):
        self.q = queue.Queue()
        self.workers = []
        ths = []
        errs = []

        def mk(i):
            try:
                self.workers.append(Worker(stg, prop, (hashseeds or [0, 1, 2, 3, 4, 5, 6, 7])[i % 8], self.q, tag + str(i)))
            except Exception as e:
                errs.append(e)

        for i in range(nw):
            t = threading.Thread(target=mk, args=(i,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        if errs:
            self.close()
            raise errs[0]
        self.prop = prop

    def map(self, tasks, stop=None, deadline=None):
        """run tasks (iterator of dicts), yield (task, result) as they come; stop(): no more tasks"""
        tasks = iter(tasks)
        busy = 0
        exhausted = False
        idle = list(self.workers)
        n = 0
        while True:
            while idle and not exhausted:
                if (stop and stop()) or (deadline and time.time() > deadline):
                    exhausted = True
                    break
                t = next(tasks, None)
                if t is None:
                    exhausted = True
                    break
                n += 1
                t = dict(t, id=n)
                w = idle.pop()
                w.send(t)
                busy += 1
            if not busy:
                return
            w, res = self.q.get()
            if res is None:
                raise RuntimeError("a worker ended: task %r" % (w.task and w.task.get("plan"),))
            idle.append(w)
            busy -= 1
            res["hashseed"] = w.hashseed
            yield w.task, res

    def one(self, task):
        for _, r in self.map([task]):
            return r

    def close(self):
        for w in self.workers:
            w.close()


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (base, prop, i)).encode()).digest()[:6], "big")


def make_plan(mod, prop, base, i, tier):
    s = seed_of(base, prop, i)
    rng = random.Random(s)
    plan = mod.gen(rng, tier, i)
    plan["sched"] = rng.randrange(1 << 48)
    plan["seed"] = s
    return plan


BAD = ("violation", "died", "hang")


def minimise(farm, mod, task, res, budget=90):
    """greedy reduction of plan and decisions, keeping the same kind of violation"""
    kind = res["kind"]
    end = time.time() + budget
    plan = task["plan"]
    decisions = res.get("trace")
    best = (plan, task.get("decisions"), res)
    tries = 0

    def bad(r):
        return r["status"] in BAD and r["kind"] == kind

    def attempt(cands):
        """cands: list of (plan, decisions); first (in order) that still fails"""
        nonlocal best, tries
        tries += len(cands)
        got = {}
        for t, r in farm.map([{"prop": task["prop"], "plan": p, "decisions": d, "k": k, "timeout": 60} for k, (p, d) in enumerate(cands)]):
            if bad(r):
                got[t["k"]] = r
        if got:
            k = min(got)
            best = (cands[k][0], cands[k][1], got[k])
            return True
        return False

    if decisions is not None:
        attempt([(plan, [])]) or attempt([(plan, decisions)])
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = list(reductions(best[0]))
        extra = getattr(mod, "shrink", None)
        if extra:
            cands = list(extra(best[0])) + cands
        for i in range(0, len(cands), 16):
            if time.time() > end:
                break
            ds = best[1]
            if attempt([(c, ds) for c in cands[i : i + 16]]):
                progress = True
                break
    # schedule: shorten and zero the recorded decisions
    ds = best[1] if best[1] is not None else best[2].get("trace")
    if ds and best[1] is not None:
        n = len(ds)
        cut = n
        while cut > 0 and time.time() < end:
            cut //= 2
            d = best[1]
            if len(d) <= cut or not attempt([(best[0], d[:cut])]):
                break
        d = best[1]
        nz = [i for i, v in enumerate(d) if v]
        for i in range(0, len(nz), 16):
            if time.time() > end:
                break
            cands = []
            for j in nz[i : i + 16]:
                e = list(best[1])
                if j < len(e):
                    e[j] = 0
                    cands.append((best[0], e))
            if cands:
                attempt(cands)
    return best, tries


def reductions(plan):
    """generic plan reductions: drop list elements of ops and faults, drop trajectories, shorten"""
    for key in ("faults", "ops"):
        L = plan.get(key)
        if isinstance(L, list):
            for i in range(len(L)):
                yield dict(plan, **{key: L[:i] + L[i + 1 :]})
    c = plan.get("cfg")
    if c:
        L = c.get("lens", [])
        if len(L) > 1:
            for i in range(len(L)):
                yield dict(plan, cfg=dict(c, lens=L[:i] + L[i + 1 :]))
        for i, n in enumerate(L):
            if n > 40:
                yield dict(plan, cfg=dict(c, lens=L[:i] + [40] + L[i + 1 :]))


def load_known(prop):
    p = os.path.join(st.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def same_finding(k, task, res):
    """a listed finding is identified by the kind of failure and the exact operation and input class it names"""
    return k["kind"] == res["kind"] and k["match"] in (res.get("msg") or "")


def check(prop, tier, base, n_runs=None, wall=None, verbose=False, only=None):
    t0 = time.time()
    mod = importlib.import_module("sim.props." + prop.lower())
    n_runs = n_runs or mod.RUNS[tier]
    wall = wall or mod.WALL[tier]
    stg = st.Stage(checked=getattr(mod, "CHECKED", False))
    farm = None
    try:
        farm = Farm(stg, prop)
        setup_s = time.time() - t0
        agg = collections.Counter()
        fired, reached = collections.Counter(), collections.Counter()
        hashes, scheds, nontriv = set(), set(), set()
        samples, harness = [], []
        known = load_known(prop)
        known_hit = {}
        vtime = steps = 0.0

        def tasks():
            for i in only if only is not None else range(n_runs):
                yield {"prop": prop, "i": i, "plan": make_plan(mod, prop, base, i, tier)}

        cats = collections.Counter()
        t1 = time.time()
        todo = tasks()
        violation, unreproduced, farm2 = None, [], None
        while True:
            found, stopflag = [], []
            for task, res in farm.map(todo, stop=lambda: bool(stopflag), deadline=t1 + wall):
                agg["runs"] += 1
                agg[res["status"]] += 1
                fired.update(res.get("fired") or {})
                reached.update(res.get("reached") or {})
                vtime += res.get("vtime") or 0
                steps += res.get("steps") or 0
                hashes.add(res.get("hash"))
                if res.get("sched"):
                    scheds.add(res["sched"])
                info = res.get("info") or {}
                for k, v in info.get("counts", {}).items():
                    cats[k] += v
                if info.get("nontrivial"):
                    nontriv.add(res.get("hash"))
                if len(samples) < 3 and res["status"] == "ok" and info.get("nontrivial"):
                    samples.append({"run": task["i"], "plan": task["plan"], "fired": res.get("fired"), "hash": res["hash"]})
                if res["status"] == "harness":
                    harness.append((task, res))
                    if len(harness) > 20:
                        stopflag.append(1)
                elif res["status"] in BAD:
                    k = next((k for k in known if same_finding(k, task, res)), None)
                    if k:
                        known_hit[k["id"]] = k
                    else:
                        found.append((task, res))
                        stopflag.append(1)
                if verbose and res["status"] != "ok":
                    print(task["i"], res["status"], res.get("kind"), res.get("msg"))
            explore_s = time.time() - t1
            for task, res in sorted(found, key=lambda x: x[0]["i"]):
                # the same execution again: same hash seed, same memory layout (several times in case the layout is not controlled)
                farm2 = Farm(stg, prop, hashseeds=[res["hashseed"]] * 8, tag="m")
                for _ in range(4):
                    for t, again in farm2.map([{"prop": prop, "plan": task["plan"], "timeout": 120}] * (1 if _ == 0 else len(farm2.workers))):
                        if violation is None and again["status"] in BAD and again["kind"] == res["kind"]:
                            violation = (task, res)
                    if violation:
                        break
                if violation:
                    break
                farm2.close()
                unreproduced.append((task, res))
            if violation or not found or len(unreproduced) > 8:
                break
        code = 0
        if violation:
            task, res = violation
            (plan, ds, r), tries = minimise(farm2, mod, task, res)
            farm2.close()
            path = write_replay(prop, base, task, res, plan, ds, r, stg, tries)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  run %d seed %d: %s: %s" % (task["i"], task["plan"]["seed"], r["kind"], r["msg"]))
            code = 1
        elif unreproduced or harness:
            for task, res in unreproduced:
                print("HARNESS-ERROR: not reproducible: run %d %s %s" % (task["i"], res.get("kind"), res.get("msg")))
            for task, res in harness[:5]:
                print("HARNESS-ERROR: run %d %s %s" % (task["i"], res.get("kind"), res.get("msg")))
            code = 2
        for k in known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if only is None:
            ev = evidence(mod, prop, tier, base, agg, fired, reached, hashes, scheds, nontriv, samples, cats, vtime, steps, explore_s, setup_s, time.time() - t0, 1 if violation else 0, stg)
            write_evidence(prop, ev)
        print("%s %s: %d runs in %.0f s (+%.0f s set-up), %d distinct executions, %d distinct schedules, faults %s" % (prop, tier, agg["runs"], explore_s, setup_s, len(hashes), len(scheds), dict(fired)))
        return code
    finally:
        if farm:
            farm.close()
        stg.close()


def write_replay(prop, base, task, res, plan, ds, r, stg, tries):
    d = os.path.join(st.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%d.json" % (prop, r["kind"].replace(" ", "_").replace("/", "_")[:40], task["i"])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop, "verif_seed": base, "run": task["i"], "seed": task["plan"]["seed"], "plan": plan, "decisions": ds, "kind": r["kind"], "msg": r["msg"], "hash": r["hash"], "events": r.get("events"), "minimisation_runs": tries, "original_plan": task["plan"], "original_msg": res["msg"], "tree": stg.hash, "hashseed": res["hashseed"]}, f, indent=1, default=str)
    return path


def replay(path):
    rp = json.load(open(path))
    prop = rp["property"]
    mod = importlib.import_module("sim.props." + prop.lower())
    stg = st.Stage(checked=getattr(mod, "CHECKED", False))
    farm = None
    try:
        farm = Farm(stg, prop, nw=1, hashseeds=[rp.get("hashseed", 5)] * 8, tag="m")
        r = farm.one({"prop": prop, "plan": rp["plan"], "decisions": rp["decisions"], "timeout": 120, "events": True})
        print("replay of %s" % path)
        print("recorded: %s %s" % (rp["kind"], rp["msg"]))
        print("now:      %s %s %s" % (r["status"], r.get("kind"), r.get("msg")))
        same = r["status"] in BAD and r["kind"] == rp["kind"]
        exact = same and r["hash"] == rp["hash"]
        print("same execution (event log hash): %s" % exact)
        for e in r.get("events") or []:
            print("   ", e)
        if same:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        if farm:
            farm.close()
        stg.close()


def evidence(mod, prop, tier, base, agg, fired, reached, hashes, scheds, nontriv, samples, cats, vtime, steps, explore_s, setup_s, wall, nviol, stg):
    return {
        "property": prop,
        "tier": tier,
        "seed": int(base),
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples[:3],
            "runs_per_hour": round(agg["runs"] / max(explore_s, 1e-9) * 3600),
            "simulated_time_s": round(vtime, 3),
            "simulated_steps": int(steps),
            "faults_injected": dict(sorted(fired.items())),
            "reached": dict(sorted(reached.items())),
            "distinct_executions_by_event_log": len(hashes),
            "distinct_schedules_by_decision_sequence": len(scheds),
            "counts": dict(sorted(cats.items())),
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "not_finished_within_budget": max(0, mod.RUNS[tier] - agg["runs"]),
            "statuses": {k: v for k, v in agg.items() if k != "runs"},
            "tree_hash": stg.hash,
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }


def write_evidence(prop, ev):
    d = os.path.join(st.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p + ".part", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".part", p)


def determinism(prop, base, n, tier="quick"):
    """every seed twice, under different hash seeds, workers and orders: the event logs must be identical"""
    mod = importlib.import_module("sim.props." + prop.lower())
    stg = st.Stage(checked=getattr(mod, "CHECKED", False))
    try:
        out = []
        for hs, nw, rev in (([0], 8, False), ([11, 12, 13, 14, 15, 16, 17, 18], 3, True)):
            farm = Farm(stg, prop, nw=nw, hashseeds=hs * 8 if len(hs) == 1 else hs)
            try:
                idx = list(range(n))
                if rev:
                    idx.reverse()
                out.append({t["i"]: (r["hash"], r["status"]) for t, r in farm.map({"prop": prop, "i": i, "plan": make_plan(mod, prop, base, i, tier)} for i in idx)})
            finally:
                farm.close()
        diff = [i for i in range(n) if out[0][i] != out[1][i]]
        print("%s: %d seeds run twice, %d differ %s" % (prop, n, len(diff), diff[:10]))
        return 1 if diff else 0
    finally:
        stg.close()
