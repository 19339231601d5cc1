"""C08: a crash or disk error never leaves a partial result file."""
RUNS = {"quick": 500, "thorough": 20000}
WALL = {"quick": 50, "thorough": 1500}
RULE = "one run is an estimator whose correlation or kernel computation is about to be saved, with or without the files of an earlier run under the same names; the step is executed 3-8 times from that same state in a forked process, each time with one fault (process killed before, in the middle of or after the k-th disk operation; ENOSPC, EIO, EACCES or a full disk from the k-th operation on; interrupt or kill at the k-th library line), k seeded over all disk operations of the save; then the files are read back by the parent, the memory of a surviving process is compared, and the save is repeated in the same process (after an error, disk healed) or in a new one (after a crash); nontrivial when a fault fired; distinct by hash of the event log"
REAL = ["VolterraBasis estimators", "xarray, netCDF4 and HDF5 libraries on a real scratch directory"]
STUB = ["write/ftruncate/rename/unlink/fsync/open/close of the C library are interposed for the scratch directory", "a kill is _exit in a forked process"]
ASSUME = ["crash of the process: what was handed to the kernel survives (a power failure that loses cached pages is not simulated)", "a segmentation fault of the netCDF/HDF5 libraries on a failing disk counts as a crash of the process", "single writer per prefix"]

KINDS = ["crash", "crash", "crash", "torn", "torn", "crash-after", "crash-after", "enospc", "enospc", "eio", "eio", "full", "full", "eacces", "line-kill", "line-interrupt", "line-exception"]


def gen(rng, tier, i):
    from .. import gens as g

    cfg = g.gen_cfg(rng, ntraj=rng.choice([1, 1, 2]), small=True, short=False)
    c = g.gen_corrs(rng)
    faults = [{"frac": rng.random(), "kind": rng.choice(KINDS), "again": rng.choice([[], [], [{"frac": rng.random(), "kind": rng.choice(["enospc", "eio", "full"])}]])} for _ in range(rng.randint(3, 8))]
    return {"cfg": cfg, "corrs": c, "kernel": g.gen_kernel(rng, c)[1], "op": rng.choice(["corrs", "corrs", "kernel", "kernel"]), "old": rng.random() < 0.7, "olddata": rng.randrange(1 << 30), "oldsecond": rng.random() < 0.7, "prefix": rng.choice(["", "p_", "sub/q_"]), "faults": faults}


def shrink(p):
    for i in range(len(p["faults"])):
        if len(p["faults"]) > 1:
            yield dict(p, faults=p["faults"][:i] + p["faults"][i + 1 :])
        if p["faults"][i]["again"]:
            yield dict(p, faults=p["faults"][:i] + [dict(p["faults"][i], again=[])] + p["faults"][i + 1 :])
    if p["prefix"]:
        yield dict(p, prefix="")


def run(plan, sim, d):
    import json
    import os
    import shutil
    import signal

    import numpy as np

    from .. import core, disk, work as w
    from ..core import Violation

    base = os.path.join(os.path.realpath(d), "w")
    os.makedirs(os.path.join(base, "sub"))
    os.chdir(base)
    cfg, pre, name = plan["cfg"], plan["prefix"], plan["op"]
    other = "kernel" if name == "corrs" else "corrs"
    op = [name, plan[name]]
    path = os.path.join(base, pre + name + ".nc")
    tail = "%s prefix %r (%s)" % (w.op_name(op), pre, w.describe_cfg(cfg))

    def history(S, upto):
        w.act(S, ["mean_force", {}])
        w.act(S, ["corrs", plan["corrs"]])
        if upto == "kernel":
            w.act(S, ["kernel", plan["kernel"]])

    # files of an earlier run under the same names
    try:
        if plan["old"]:
            o = w.Session(dict(cfg, data=plan["olddata"]), saveall=True, prefix=pre)
            w.act(o, ["mean_force", {}])
            w.act(o, ["corrs", dict(plan["corrs"], second_order_method=plan["oldsecond"])])
            w.act(o, ["kernel", {"method": "rect"}])
            oldc = disk.content(o, name)
        # what the files should hold afterwards
        T = w.Session(cfg)
        history(T, "kernel")
        newc = disk.content(T, name)
        S = w.Session(cfg, saveall=True, prefix=pre)
        S.est.saveall = False
        w.act(S, ["mean_force", {}])
        if name == "kernel":
            w.act(S, ["corrs", plan["corrs"]])
        S.est.saveall = True
    except np.linalg.LinAlgError:
        return {"counts": {"singular": 1}, "nontrivial": False}
    backup = os.path.join(os.path.realpath(d), "old")
    shutil.copytree(base, backup)

    def restore():
        for f in disk.tree(base):
            os.remove(os.path.join(base, f))
        for f in disk.tree(backup):
            shutil.copy(os.path.join(backup, f), os.path.join(base, f))

    def forked(fn):
        """run fn in a forked process; ('exit', value) or ('signal'/'crash', code)"""
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.alarm(60)
                try:
                    v = fn()
                except Violation as e:
                    v = {"violation": [e.kind, e.msg]}
                core.DISK.disarm()
                os.write(wr, json.dumps(v, default=str).encode())
            except BaseException as e:
                core.DISK.disarm()
                os.write(wr, json.dumps({"harness": repr(e)[:300]}).encode())
            finally:
                os._exit(code)
        os.close(wr)
        buf = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        if buf:
            v = json.loads(buf)
            if "violation" in v:
                raise Violation(*v["violation"])
            if "harness" in v:
                raise RuntimeError(v["harness"])
            return v
        if os.WIFSIGNALED(st):
            if os.WTERMSIG(st) == signal.SIGALRM:
                raise Violation("no-progress", "%s: the save hangs" % tail)
            return {"crash": "signal %d" % os.WTERMSIG(st)}
        return {"crash": "exit %d" % os.WEXITSTATUS(st)}

    def state(where, allow_absent):
        """which complete version is under the final name"""
        if not os.path.exists(path):
            if plan["old"]:
                raise Violation("file-lost", "%s: the file of the earlier run is gone" % where)
            return "absent"
        try:
            x = disk.read_file(path)
        except Exception as e:
            raise Violation("partial-file", "%s: the file cannot be read: %s" % (where, str(e)[:150]))
        dn = disk.diff(x, newc, name, True)
        if dn is None:
            return "new"
        do = disk.diff(x, oldc, name, True) if plan["old"] else "there was none"
        if do is None:
            return "old"
        raise Violation("partial-file", "%s: the file is neither the new version (%s) nor the earlier one (%s)" % (where, dn, do))

    def others(where):
        p2 = os.path.join(base, pre + other + ".nc")
        if plan["old"]:
            with open(p2, "rb") as f, open(os.path.join(backup, pre + other + ".nc"), "rb") as g:
                if f.read() != g.read():
                    raise Violation("other-file", "%s: the %s file changed" % (where, other))

    def attempt(faults):
        core.DISK.arm(base, faults)
        try:
            w.act(S, op)
            return "ok", None
        except Exception as e:
            return "err", "%s: %s" % (type(e).__name__, str(e)[:100])

    # how many disk operations and lines the step makes
    def count():
        with core.inject() as c:
            a = attempt([])
        return {"r": a, "n": core.DISK.count(), "ops": core.DISK.ops(), "lines": [c.pick_line(f["frac"]) for f in plan["faults"]]}

    with core.Dask(sim):
        base_run = forked(count)
        restore()
        if base_run.get("crash") or base_run["r"][0] != "ok":
            if "LinAlg" in str(base_run):
                return {"counts": {"singular": 1}, "nontrivial": False}
            raise Violation("save-fails", "%s without any fault: %s" % (tail, base_run))
        n, ops = base_run["n"], base_run["ops"]
        sim.ev("save makes", ops)
        hit = crashes = errors = retries = 0
        states = {}
        for line, f in zip(base_run["lines"], plan["faults"]):
            at = min(n - 1, int(f["frac"] * n))
            kind = f["kind"]
            fl = [] if kind.startswith("line") else [{"at": at, "kind": kind}]
            where = "%s, %s at %s" % (tail, kind, "line %d" % line if kind.startswith("line") else "disk operation %d of %d (%s)" % (at, n, ops[at : at + 1]))

            def go():
                out = {}
                if kind.startswith("line"):
                    core.DISK.arm(base, [])
                    exc = {"line-interrupt": KeyboardInterrupt, "line-exception": core.SimFault, "line-kill": SystemExit}[kind]
                    if kind == "line-kill":
                        def exc():
                            os._exit(77)
                    inj = core.inject(line=line, exc=exc)
                    try:
                        with inj:
                            w.act(S, op)
                        out["r"] = ["ok", None]
                    except (Exception, KeyboardInterrupt) as e:
                        out["r"] = ["err", type(e).__name__]
                    out["fired"] = {kind: int(inj.where is not None)}
                else:
                    out["r"] = attempt(fl)
                    out["fired"] = core.DISK.fired()
                core.DISK.disarm()
                out["state"] = state(where, True)
                others(where)
                if out["r"][0] == "ok" and out["state"] != "new":
                    raise Violation("error-not-reported", "%s: the step returned normally but the file is %s" % (where, out["state"]))
                left = [x for x in disk.tree(base) if x not in disk.tree(backup) and x != os.path.relpath(path, base)]
                # an asynchronous exception may arrive between creating a scratch file and guarding it: only disk errors count
                if left and not kind.startswith("line") and kind not in ("full",) and not (kind in ("eio", "eacces", "enospc") and ops[at : at + 1] in ("U", "R", "C")):
                    raise Violation("leftover", "%s: %s is left behind" % (where, left))
                # memory: nothing, or the complete new results; never a mixture
                have = None
                if name == "corrs":
                    if w.corr_state(S.est) is not None:
                        have = disk.content(S, name)
                elif S.model.kernel is not None:
                    have = disk.content(S, name)
                if have is not None:
                    dd = disk.diff(have, newc, name, True)
                    if dd:
                        raise Violation("memory-corrupted", "%s: in memory, %s" % (where, dd))
                # further failures, then the disk is well again
                for g in f["again"]:
                    r = attempt([{"at": min(n - 1, int(g["frac"] * n)), "kind": g["kind"]}])
                    for k, v in core.DISK.fired().items():
                        out["fired"][k] = out["fired"].get(k, 0) + v
                    core.DISK.disarm()
                    s2 = state(where + " and %s later" % g["kind"], True)
                    if r[0] == "ok" and s2 != "new":
                        raise Violation("error-not-reported", "%s and %s later: the step returned normally but the file is %s" % (where, g["kind"], s2))
                r = attempt([])
                core.DISK.disarm()
                if r[0] != "ok" or state(where + ", then repeated", True) != "new":
                    raise Violation("retry-fails", "%s: repeating the step afterwards: %s, file %s" % (where, r, state(where, True)))
                if name == "corrs":
                    w.act(S, ["kernel", plan["kernel"]])
                    dd = disk.diff(disk.kernel_content(S), disk.kernel_content(T), "kernel", True) if kr is not None else None
                    if dd and w.npy(S.model.kernel).shape == w.npy(T.model.kernel).shape:
                        a, b = w.npy(S.model.kernel), w.npy(T.model.kernel)
                        P = w.P_of(S.model)
                        if P is not None:
                            a, b = w.lift(P, "kernel", a), w.lift(w.P_of(T.model), "kernel", b)
                        if np.max(np.abs(a - b)) > kr * np.max(np.abs(b)):
                            raise Violation("memory-corrupted", "%s: the kernel computed afterwards, %s" % (where, dd))
                out["retry"] = 1
                return out

            try:
                kr = w.kernel_rtol(T.est)
            except Exception:
                kr = None
            r = forked(go)
            if "crash" in r:
                sim.fault("process-" + kind if r["crash"].startswith("exit 77") else "library-crash", at)
                crashes += 1
                hit += 1
                s = state(where + " (%s)" % r["crash"], True)
                others(where)
                # restart: a new process with nothing but the files
                def again():
                    S2 = w.Session(cfg, saveall=True, prefix=pre)
                    history(S2, name)
                    if state(where + ", then a new process", True) != "new":
                        raise Violation("retry-fails", "%s: a new process does not replace the file" % where)
                    return {"ok": 1}

                a = forked(again)
                if "crash" in a:
                    raise Violation("retry-fails", "%s: the new process ended with %s" % (where, a["crash"]))
                retries += 1
            else:
                s = r["state"]
                for k, v in r["fired"].items():
                    for _ in range(v):
                        sim.fault(k if k.startswith("line") else "disk-" + k)
                    hit += v
                errors += r["r"][0] == "err"
                retries += r.get("retry", 0)
                sim.ev("fault", kind, at, r["r"][0], s)
            states[s] = states.get(s, 0) + 1
            sim.ev("state", kind, at, s)
            restore()
    c = {"faulted_saves": len(plan["faults"]), "faults_hit": hit, "crashes": crashes, "errors_raised": errors, "retries_ok": retries, "disk_ops": n}
    for k, v in states.items():
        c["file_" + k] = v
    return {"counts": c, "nontrivial": hit > 0}
