"""Worker process: imports everything once, then runs each plan in a forked child."""
import gc
import importlib
import json
import os
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback
import warnings


def child(scratch, tag):
    from . import core

    with open(os.path.join(scratch, "w%s.task" % tag)) as f:
        task = json.loads(f.read())
    core.CUR = sim = core.Sim(task["plan"].get("sched", 0), task.get("decisions"))
    d = os.path.join(scratch, "r" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(devnull, 2)
    res = {"status": "ok"}
    cov = coverage_start(core.STAGE) if os.environ.get("SIM_COV") else None
    t0 = time.time()
    try:
        prop = importlib.import_module("sim.props." + task["prop"].lower())
        info = prop.run(task["plan"], sim, d)
        res["info"] = info or {}
    except core.Violation as v:
        res.update(status="violation", kind=v.kind, msg=v.msg)
    except core.NoProgress as v:
        res.update(status="violation", kind="no-progress", msg=str(v))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inlib = any(f.filename.startswith(core.STAGE) for f in tb) and not isinstance(e, core.SimFault)
        if isinstance(e, AttributeError) and type(e.obj).__module__.startswith("VolterraBasis"):
            inlib = True  # a public attribute of one of the library's objects is gone
        res.update(status="violation" if inlib else "harness", kind=("unexpected-exception " if inlib else "") + type(e).__name__, msg=(str(e) + " @ " + "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-6:]))[:1500])
    sim.ev("end", res["status"], res.get("kind"))
    res.update(trace=sim.trace, hash=sim.h.hexdigest(), sched=sim.sched_hash.hexdigest()[:16], fired=dict(sim.fired), reached=dict(sim.reached), vtime=sim.vtime, steps=sim.steps, n_events=sim.n_events, wall=time.time() - t0)
    if res["status"] != "ok" or task.get("events"):
        res["events"] = sim.events[:400]
    if cov is not None:
        with open(os.path.join(os.environ["SIM_COV"], "%d.cov" % os.getpid()), "a") as f:
            f.write("".join("%s:%d\n" % c for c in sorted(cov)))
    data = json.dumps(res, default=str).encode()
    fd = os.open(os.path.join(scratch, "w%s.res" % tag), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    while data:
        n = os.write(fd, data)
        data = data[n:]
    os.close(fd)


def coverage_start(stage):
    """Development aid (SIM_COV=directory): which library lines the runs reach"""
    seen = set()
    m = sys.monitoring

    def line(code, n):
        if code.co_filename.startswith(stage):
            seen.add((code.co_filename[len(stage) + 1 :], n))
        return m.DISABLE

    m.use_tool_id(5, "simcov")
    m.register_callback(5, m.events.LINE, line)
    m.set_events(5, m.events.LINE)
    m.restart_events()
    return seen


def zygote(ctl, rep, scratch, tag):
    """Forks one child per byte read and does nothing else, so that every child starts from the same memory, whatever
    ran before it in this worker."""
    while True:
        if os.read(ctl, 1) != b"g":
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(ctl)
                os.close(rep)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                child(scratch, tag)
            finally:
                os._exit(0)
        os.write(rep, struct.pack("qq", 1, pid))
        st = os.waitpid(pid, 0)[1]
        os.write(rep, struct.pack("qq", 2, st))


def run_task(task, scratch, tag, ctl, rep):
    f1, f2 = (os.path.join(scratch, "w%s.%s" % (tag, x)) for x in ("task", "res"))
    with open(f1, "w") as f:
        f.write(json.dumps({k: task.get(k) for k in ("prop", "plan", "decisions", "events")}))
    if os.path.exists(f2):
        os.unlink(f2)
    os.write(ctl, b"g")
    deadline = time.time() + task.get("timeout", 90)
    hung, pid, st, buf = False, None, None, b""
    while st is None:
        rd, _, _ = select.select([rep], [], [], None if hung else max(0, deadline - time.time()))
        if rd:
            buf += os.read(rep, 16)
            if len(buf) == 16:
                k, v = struct.unpack("qq", buf)
                buf = b""
                if k == 1:
                    pid = v
                else:
                    st = v
        elif pid is not None:
            hung = True
            os.kill(pid, signal.SIGKILL)
    shutil.rmtree(os.path.join(scratch, "r" + tag), ignore_errors=True)
    data = b""
    if os.path.exists(f2):
        with open(f2, "rb") as f:
            data = f.read()
    if hung:
        return {"status": "hang", "kind": "no-progress", "msg": "no answer within %s s" % task.get("timeout", 90), "hash": "hang"}
    if not data:
        return {"status": "died", "kind": "process-died", "msg": "the process ended without an answer, wait status %d" % st, "hash": "died%d" % st}
    try:
        return json.loads(data)
    except ValueError:
        return {"status": "died", "kind": "process-died", "msg": "truncated answer, wait status %d" % st, "hash": "died%d" % st}


def main():
    stage, scratch, fsim = sys.argv[1:4]
    sys.path.insert(0, stage)
    warnings.simplefilter("ignore")
    from . import core

    core.STAGE = os.path.join(stage, "VolterraBasis")
    core.mon_install()
    core.install_pools()
    core.install_locks()
    import VolterraBasis

    assert VolterraBasis.__file__.startswith(stage), VolterraBasis.__file__
    import VolterraBasis.basis  # noqa
    import netCDF4, dask.array, joblib, xarray, cloudpickle, sklearn, skfem, sparse  # noqa
    import dask

    dask.config.set(scheduler="synchronous")  # A real thread pool does not survive the fork; core.Dask replaces it where tasks are scheduled

    core.DISK = core.Disk(fsim)
    from . import work  # noqa

    try:
        work.warm(scratch)
    except Exception:
        pass
    importlib.import_module("sim.props." + sys.argv[4].lower())
    core.staged_codes()
    gc.collect()
    gc.freeze()
    tag = sys.argv[5]
    c = os.pipe()
    r = os.pipe()
    if os.fork() == 0:
        os.close(c[1])
        os.close(r[0])
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(2, 1)
        zygote(c[0], r[1], scratch, tag)
    os.close(c[0])
    os.close(r[1])
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        task = json.loads(line)
        res = run_task(task, scratch, tag, c[1], r[0])
        res["id"] = task["id"]
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
