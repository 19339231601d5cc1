"""C12: results do not depend on ambient process state."""
import sys

RUNS = {"quick": 560, "thorough": 30000}
WALL = {"quick": 48, "thorough": 1500}
CHECKED = True
RULE = "one run is a history of 4-16 operations over the whole public interface executed in two processes (in one run of 24 a newly started interpreter with another hash seed is the second) that differ in ambient state: state of the global numpy and python generators, contents of recycled and uninitialised memory (numpy and C allocations; in more than half of the runs the second process uses a build of the Fortran code whose local variables start as garbage and in which an access outside an array ends the process where the compiler can check it), working directory, environment variables, floating point warning mode, garbage collection, order of the simulated pool, and other computations with other objects before and between the steps (same shapes, other data); all results are compared, in one process each step is also repeated with other garbage in memory, and the generators, the working directory and the environment are compared before and after each step; nontrivial when at least 3 results were compared; distinct by hash of the event log"
REAL = ["the whole VolterraBasis package, Fortran kernels"]
STUB = ["malloc fill pattern and np.empty contents", "joblib workers (simulated pool)"]
ASSUME = ["tolerance 1e-9 relative (alignment of recycled memory may change the order of sums), or that of the conditioning for estimates"]


def gen(rng, tier, i):
    from . import c06

    p = c06.gen(rng, tier, i)
    p.update(ro=False, lazy=False, bad={}, saveall=False, mode="process")
    cfg = p["cfg"]
    # more integrations, evolution, fits: what uses generators and scratch memory
    ex = ["noise_gen", "kl_noise", "mesh", "memory_fit", "prony", "basis_calls", "flux", "fe", "default_noise", "initial"]
    if cfg["model"] == "Pos_gle_overdamped":
        ex += ["evolve"] * 3
    for _ in range(rng.randint(1, 4)):
        w = rng.choice(ex)
        p["steps"].append([w, {"seed": rng.randrange(1 << 30), "i": rng.randrange(8), "n": rng.randint(4, 12), "what": rng.randrange(8), "flag": rng.random() < 0.5, "fit": rng.choice(c06.FITS)}])

    def junk():
        out = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            c = dict(cfg) if rng.random() < 0.6 else c06.gen(rng, tier, i)["cfg"]
            c = dict(c, data=rng.randrange(1 << 30))
            if rng.random() < 0.25:
                c = dict(cfg, near=rng.choice([1e-9, 1e-6, 1e-3, 0.01]))
            if rng.random() < 0.3:
                c["dt"] = rng.choice([0.05, 0.1, 0.2])
            out.append({"cfg": c, "steps": [s for s in p["steps"] if s[0] in ("new", "mean_force", "corrs", "kernel", "noise", "proj_corrs", "force_eval")] if c["basis"] == cfg["basis"] and c["model"] == cfg["model"] else [["new", {}], ["mean_force", {}], ["corrs", {}]], "before": rng.randrange(0, len(p["steps"]))})
        return out

    def amb(k):
        return {"np": rng.randrange(1 << 30), "py": rng.randrange(1 << 30), "mem": rng.choice([0x01, 0x7F, 0x33, 0x55, 0x21]) if k else rng.choice([0, 0x01, 0x7F]), "cwd": "w%d" % k, "env": {"HOME": "/nonexistent%d" % k, "TZ": ["UTC", "Asia/Tokyo"][k], "LC_ALL": ["C", "C.UTF-8"][k], "COLUMNS": str(60 + 40 * k), "VOLTERRA": str(k)}, "err": ["warn", "ignore"][k], "gc": bool(k), "junk": junk(), "fk": k == 1 and rng.random() < 0.6, "sched": rng.randrange(1 << 40), "repeat": bool(k)}

    p["amb"] = [amb(0), amb(1)]
    p["spawn"] = rng.randrange(1, 1 << 30) if rng.random() < 1 / 24 else None
    return p


def shrink(p):
    from . import c06

    if p["spawn"] is not None:
        yield dict(p, spawn=None)
    for k in (0, 1):
        for f, v in (("junk", []), ("mem", 0), ("repeat", False), ("fk", False), ("np", 1), ("py", 1), ("env", {}), ("cwd", "w0"), ("err", "warn"), ("gc", False)):
            if p["amb"][k][f] != v:
                a = list(p["amb"])
                a[k] = dict(a[k], **{f: v})
                yield dict(p, amb=a)
    for q in c06.shrink(p):
        a = [dict(x, junk=[dict(j, before=min(j["before"], max(0, len(q["steps"]) - 1))) for j in x["junk"]]) for x in p["amb"]]
        yield dict(q, amb=a)


DOC = ("initial", "default_noise")


def execute(plan, amb, d):
    """one process: returns (results per step, complaints)"""
    import gc
    import os
    import random

    import numpy as np

    from .. import core, flat, work as w
    from . import c06

    sim = core.Sim(amb["sched"])
    core.CUR = sim
    wd = os.path.join(d, amb["cwd"])
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    os.environ.update(amb["env"])
    np.seterr(all=amb["err"])
    if amb["gc"]:
        gc.set_threshold(50, 2, 2)
    if amb["fk"]:
        core.swap_extension("VolterraBasis.fkernel", os.path.join(os.path.dirname(os.path.dirname(core.STAGE)), "fkernel_checked.so"))
    np.random.seed(amb["np"])
    random.seed(amb["py"])
    core.perturb_memory(amb["mem"])
    U = c06.User(plan, sim, wd)
    U.reg.add = lambda name, o: o  # inputs are watched in C06
    out, bad = [], []

    def state():
        s = np.random.get_state()
        return (s[1].tobytes(), s[2], s[3], s[4]), random.getstate(), os.getcwd(), dict(os.environ)

    names = ("the global numpy generator", "the global python generator", "the working directory", "the environment")

    def call(step, f):
        if step[0] in DOC:
            np.random.seed(step[1]["seed"])
        s0 = state()
        set0 = core.process_settings()
        try:
            r = ("ok", f())
        except Exception as e:
            if isinstance(e, np.linalg.LinAlgError):
                r = ("singular", None)
            else:
                r = ("err", type(e).__name__ + ": " + str(e)[:100])
        s1 = state()
        for n in core.settings_changed(set0):
            bad.append(("ambient-state-changed", "%s changed %s" % (w.op_name([step[0], {}]), n)))
        for k, n in enumerate(names):
            if s0[k] != s1[k] and not (k == 0 and step[0] in DOC):
                bad.append(("ambient-state-changed", "%s changed %s" % (w.op_name([step[0], {}]), n)))
        return r

    def prep(step):
        if step[0] == "default_noise":
            o = step[1]
            t = np.arange(8) * 0.1
            b = w.vbb.LinearFeatures().fit(np.zeros((3, 1)))
            return lambda: w.vb.Integrator_gle_const_kernel(None, basis=b, force_coeff=np.array([[-1.0]]), kernel=np.exp(-t)[:, None, None], dt=0.1, verbose=False).run(o["n"] + 16)
        return U.prepare(step)

    def value(step, r):
        if r[0] != "ok":
            return r
        if step[0] == "new":
            m = U.S.model
            return ("ok", flat.flatten({"n": int(m.N_basis_elt), "trunc": int(m.trunc_ind), "w": np.asarray(U.S.est.weights)}), 1e-9)
        if "seed" not in step[1]:
            v = w.read(U.S, step, r[1])
            return ("read", {k: ((np.array(x[0]) if isinstance(x[0], np.ndarray) else x[0]),) + tuple(x[1:]) for k, x in v.items()})
        return ("ok", flat.flatten(r[1]), 1e-9)

    def junk(k):
        for j in amb["junk"]:
            if j["before"] == k:
                V = c06.User(dict(plan, cfg=j["cfg"]), sim, wd)
                V.reg.add = lambda name, o: o
                for s in j["steps"]:
                    try:
                        V.prepare(s)()
                    except Exception:
                        break
                    if V.S is None:
                        break
                del V
                gc.collect()

    with core.pool(core.Pool(sim)), core.Dask(sim):
        for k, step in enumerate(plan["steps"]):
            junk(k)
            if U.S is None and step[0] in ("load", "coeffs_eval", "k0", "left_arr", "flux", "evolve", "integrate"):
                out.append(("skip",))
                continue
            f = prep(step)
            r = value(step, call(step, f))
            out.append(r)
            if r[0] == "singular":
                break
            if U.S is None and step[0] == "new":
                break
            if amb["repeat"] and step[0] not in ("new", "to_gfpe", "integrate"):
                core.perturb_memory([0x7F, 0x33, 0x01][k % 3])
                if "seed" in step[1]:
                    f = prep(step)
                r2 = value(step, call(step, f))
                e = compare(r, r2)
                if e:
                    bad.append(("repeat-differs", "%s repeated in the same process: %s" % (w.op_name([step[0], {} if "seed" in step[1] else step[1]]), e)))
                core.perturb_memory(amb["mem"])
    core.perturb_memory(0)
    return out, bad


def compare(a, b):
    """None or a description; a, b from value()"""
    from .. import flat, work as w
    from ..core import Violation

    if "singular" in (a[0], b[0]):
        return None
    if a[0] != b[0]:
        return "%s instead of %s" % (b[:2] if b[0] == "err" else b[0], a[:2] if a[0] == "err" else a[0])
    if a[0] == "err":
        return None
    if a[0] == "read":
        try:
            w.same_values(b[1], a[1], "")
        except Violation as v:
            return v.msg
        return None
    if a[0] == "ok":
        return flat.difference(a[1], b[1], a[2])
    return None


def forked(plan, amb, d):
    import os
    import pickle

    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ("ok",) + execute(plan, amb, d)
            except BaseException as e:
                import traceback

                res = ("exc", "".join(traceback.format_exception(e))[-1500:])
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died",)


def spawned(plan, amb, d, seed):
    import json
    import os
    import pickle
    import subprocess

    from .. import core, stage

    env = dict(os.environ, PYTHONHASHSEED=str(seed % 4294967295), PYTHONPATH=stage.VERIF)
    p = subprocess.run([sys.executable, "-m", "sim.props.c12", os.path.dirname(core.STAGE), core.DISK.path], input=json.dumps({"plan": plan, "amb": amb, "d": d}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, timeout=80)
    i = p.stdout.rfind(b"RESULT")
    return pickle.loads(p.stdout[i + 6 :]) if i >= 0 else ("exc", p.stderr.decode()[-800:])


def run(plan, sim, d):
    from .. import core, work as w
    from ..core import Violation

    tail = "(%s)" % w.describe_cfg(plan["cfg"])
    A = forked(plan, plan["amb"][0], d)
    if plan["spawn"] is not None:
        sim.fault("hash-seed")
        B = spawned(plan, plan["amb"][1], d, plan["spawn"])
    else:
        B = forked(plan, plan["amb"][1], d)
    for k in plan["amb"]:
        sim.fired["memory-garbage"] += bool(k["mem"])
        sim.fired["other-computation"] += len(k["junk"])
        sim.fired["generator-state"] += 1
    n = 0
    for R in (A, B):
        if R[0] != "ok":
            if R[0] == "died":
                raise Violation("process-died", "the process ended in the middle of the history " + tail)
            raise RuntimeError("child: " + R[1])
    for R in (A, B):
        for kind, msg in R[2]:
            raise Violation(kind, msg + " " + tail)
    for k, (a, b) in enumerate(zip(A[1], B[1])):
        step = plan["steps"][k]
        e = compare(a, b)
        if e:
            raise Violation("ambient-dependence", "%s in a process in another ambient state: %s %s" % (w.op_name([step[0], {} if "seed" in step[1] else step[1]]), e, tail))
        n += a[0] in ("ok", "read")
        sim.ev("step", step[0], a[0])
        sim.reached["%s-%s" % (step[0], a[0])] += 1
        if "singular" in (a[0], b[0]):
            break
    return {"counts": {"steps": len(A[1]), "results_compared": n, "interpreters_started": int(plan["spawn"] is not None)}, "nontrivial": n >= 3}


def main():
    import json
    import pickle
    import os
    import warnings

    sys.path.insert(0, sys.argv[1])
    warnings.simplefilter("ignore")
    from .. import core

    core.STAGE = os.path.join(sys.argv[1], "VolterraBasis")
    core.mon_install()
    core.install_pools()
    core.install_locks()
    import VolterraBasis  # noqa

    core.staged_codes()
    core.DISK = core.Disk(sys.argv[2])
    t = json.loads(sys.stdin.read())
    out = os.dup(1)
    os.dup2(2, 1)
    res = ("ok",) + execute(t["plan"], t["amb"], t["d"])
    os.write(out, b"RESULT")
    data = pickle.dumps(res)
    while data:
        n = os.write(out, data)
        data = data[n:]
    os._exit(0)


if __name__ == "__main__":
    main()
