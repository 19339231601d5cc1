"""C13: stochastic runs are driven only by the injected random generator."""
RUNS = {"quick": 1300, "thorough": 40000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run has 1-4 integrators or noise generators (constant or position dependent kernel, 1 or 2 dimensions, of an estimated model or of given coefficients), each with its own injected generator (numpy legacy and new generators, a partial, a recording object, numbers drawn in advance and handed out as slices), and 6-16 operations on them in a seeded order or in threads interleaved at library lines or bytecode instructions: runs with noise, noise-free runs, rewinding a generator, errors and interrupts raised by the generator at its k-th draw, changes of the global generators; afterwards each run is repeated alone by a new integrator whose generator is set to the state recorded before the run, and compared with the reference integrator fed with the recorded draws; nontrivial when two runs with noise were compared; distinct by hash of the event log"
REAL = ["VolterraBasis integrators and noise generators, models, bases"]
STUB = ["the random generators (controlled, recording, failing)", "thread scheduling (simulated)"]
ASSUME = ["draws of dim arrays of n_steps numbers, as the integrators do today, are needed only for the comparison with the reference integrator; other patterns skip that comparison"]

KINDS = ["legacy", "legacy", "new", "partial", "record", "tape", "tape"]


def gen(rng, tier, i):
    from .. import gens as g

    objs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ck = rng.random() < 0.5
        dim = 2 if rng.random() < 0.3 else 1
        objs.append({"ck": ck, "dim": dim, "basis": rng.choice([g.LIN, g.POLY, g.FOU]) if dim == 1 else g.LIN, "M": rng.randint(3, 8), "dt": rng.choice([0.05, 0.1]), "kseed": rng.randrange(1 << 30), "kind": rng.choice(KINDS), "gseed": rng.randrange(1 << 30), "what": rng.choice(["int"] * 6 + ["kl", "model"]), "data": rng.randrange(1 << 30)})
    ops = []
    for _ in range(rng.randint(6, 16)):
        k = rng.randrange(len(objs))
        w = rng.choice(["run"] * 5 + ["zero", "zero", "rewind", "rewind", "fail", "fail", "global", "renew"])
        ops.append([k, w, {"n": rng.randint(4, 24), "n0": rng.choice([0, 0, 1, 3]), "at": rng.choice([1, 1, 2]), "exc": rng.choice(["fault", "interrupt", "value", "type", "attribute", "stop", "memory"]), "seed": rng.randrange(1 << 30), "rewind_to": rng.randrange(8)}])
    return {"objs": objs, "ops": ops, "threads": rng.random() < 0.35}


def shrink(p):
    if p["threads"]:
        yield dict(p, threads=False)
    for i in reversed(range(len(p["ops"]))):
        yield dict(p, ops=p["ops"][:i] + p["ops"][i + 1 :])
    n = len(p["objs"])
    for k in range(n):
        if n > 1 and not any(o[0] == k for o in p["ops"]):
            yield dict(p, objs=p["objs"][:k] + p["objs"][k + 1 :], ops=[[o[0] - (o[0] > k)] + o[1:] for o in p["ops"]])


class Gen:
    """a controlled generator: the callable given to the library is .fn"""

    def __init__(self, kind, seed):
        import functools

        import numpy as np

        self.kind = kind
        self.log = []
        self.fail_at = None
        self.exc = None
        if kind == "tape":  # numbers drawn in advance by the user, handed out as slices
            self.seed = seed & 0x7FFFFFFF
            self.tape = np.random.RandomState(self.seed).normal(size=2000)
            self.pos = 0
        elif kind == "new":
            self.g = np.random.default_rng(seed)
        else:
            self.g = np.random.RandomState(seed & 0x7FFFFFFF)
        self.fn = self if kind in ("record", "tape") else functools.partial(self.draw, 0.0, 1.0) if kind == "partial" else self.draw

    def draw(self, loc=0.0, scale=1.0, size=None):
        import numpy as np

        if self.fail_at is not None:
            self.fail_at -= 1
            if self.fail_at <= 0:
                self.fail_at = None
                raise self.exc("generator")
        if self.kind == "tape":
            shape = (1,) if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
            n = int(np.prod(shape))
            if self.pos + n > len(self.tape):
                self.pos = 0
            a = self.tape[self.pos : self.pos + n].reshape(shape)
            self.pos += n
        else:
            a = self.g.normal(loc, scale, size=size)
        self.log.append(a.copy() if hasattr(a, "copy") else a)
        return a

    def __call__(self, size=None):
        return self.draw(size=size)

    def state(self):
        import copy

        if self.kind == "tape":
            return ("tape", self.seed, self.pos)
        return copy.deepcopy(self.g.bit_generator.state if self.kind == "new" else self.g.get_state())

    def set_state(self, s):
        if self.kind == "tape":
            if s[1] != self.seed:
                self.__init__("tape", s[1])
            self.pos = s[2]
            return
        if self.kind == "new":
            self.g.bit_generator.state = s
        else:
            self.g.set_state(s)


class Obj:
    """an integrator or noise generator under test with its generator, and how to make an equal one"""

    def __init__(self, spec):
        import numpy as np

        from .. import ref, work as w

        self.spec, self.w, self.np = spec, w, np
        self.gen = Gen(spec["kind"], spec["gseed"])
        dim, dt = spec["dim"], spec["dt"]
        rs = np.random.RandomState(spec["kseed"])
        self.cfg = {"model": "Pos_gle_const_kernel" if spec["ck"] else "Pos_gle", "basis": spec["basis"], "dim": dim, "lens": [50], "T": spec["M"] + 5, "dt": dt, "data": spec["data"], "container": "list"}
        self.arrs = w.arrays(self.cfg)
        self.rb = ref.RModel(self.cfg["model"], spec["basis"], self.arrs).b
        self.model = None
        t = np.arange(spec["M"]) * dt
        if spec["what"] == "model":
            S = w.Session(self.cfg)
            try:
                for op in (["mean_force", {}], ["pos_mass", {}], ["corrs", {}], ["kernel", {"method": "trapz"}]):
                    w.act(S, op)
                self.model = S.model
            except np.linalg.LinAlgError:
                pass
        if self.model is None:
            from scipy.stats import describe

            self.basis = w.make_basis(spec["basis"]).fit(describe(self.arrs[0]["x"]))
            nk = dim if spec["ck"] else self.rb.D(self.arrs[0]["x"][:2]).shape[1]
            nf = self.rb.B(self.arrs[0]["x"][:2]).shape[1]
            self.coeff = rs.normal(size=(nf, dim)) * 0.5
            self.K = np.zeros((spec["M"], nk, dim))
            for k in range(nk):
                for e in range(dim):
                    self.K[:, k, e] = rs.uniform(0.5, 3.0) * np.exp(-t * rs.uniform(1.0, 6.0) / dt / 4) * (1.0 if k == e else 0.3)
        self.I = self.make(self.gen)

    def make(self, gen):
        vb, np = self.w.vb, self.np
        s = self.spec
        if s["what"] == "kl":
            C = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(np.exp(-np.arange(26) * 0.2))
            return vb.KarhunenLoeveNoiseGenerator(0.5 * (C + C.T), s["dt"], rng=gen.fn)
        cls = vb.Integrator_gle_const_kernel if s["ck"] else vb.Integrator_gle
        if self.model is not None:
            return cls(self.model, rng=gen.fn, verbose=False)
        return cls(None, basis=self.basis, force_coeff=self.coeff.copy(), kernel=self.K.copy(), dt=s["dt"], rng=gen.fn, verbose=False)

    def x0(self, o):
        if not o["n0"]:
            return None
        t = self.arrs[0]
        return self.w.dataset({k: (v[: o["n0"]] if k != "time" else self.np.arange(o["n0"]) * self.spec["dt"]) for k, v in t.items()}, self.spec["dt"])[["x", "v"]]

    def go(self, I, o, noise=True):
        np = self.np
        if self.spec["what"] == "kl":
            return {"x": np.real(np.asarray(I.generate(min(o["n"], 25))))} if noise else {}
        r = I.run(o["n"] + o["n0"], x0=self.x0(o), set_noise_to_zero=not noise)
        return {k: np.array(r[k].values) for k in ("x", "v")}


def run(plan, sim, d):
    import random

    import numpy as np

    from .. import core, ref, work as w
    from ..core import Violation

    objs = [Obj(s) for s in plan["objs"]]
    todo = []  # (obj, op, state before, result, draws)
    n = fails = 0
    saved = [[o.gen.state()] for o in objs]

    def tail(O):
        s = O.spec
        return "(%s%s, dim %d, generator %s)" % (s["what"], " const kernel" if s["ck"] else "", s["dim"], s["kind"])

    def one(O, k, what, o):
        nonlocal fails
        g = O.gen
        if what == "rewind":
            g.set_state(saved[k][o["rewind_to"] % len(saved[k])])
            return
        if what == "renew":
            O.I = O.make(g)
            return
        if what == "global":
            np.random.seed(o["seed"] & 0x7FFFFFFF)
            random.seed(o["seed"])
            np.random.normal(size=3)
            return
        if what == "fail":
            g.fail_at = o["at"]
            g.exc = {"fault": core.SimFault, "interrupt": KeyboardInterrupt, "value": ValueError, "type": TypeError, "attribute": AttributeError, "stop": StopIteration, "memory": MemoryError}[o["exc"]]
            draws = len(g.log)
            try:
                O.go(O.I, o)
            except (Violation, core.NoProgress):
                raise
            except (core.SimFault, KeyboardInterrupt, ValueError, TypeError, AttributeError, StopIteration, MemoryError) as e:
                if not isinstance(e, g.exc):
                    raise Violation("generator-error-changed", "the generator raised %s, the run raised %s: %s %s" % (g.exc.__name__, type(e).__name__, str(e)[:100], tail(O)))
                sim.fault("generator-error")
                fails += 1
                g.fail_at = None
                return
            except Exception as e:
                raise Violation("generator-error-changed", "the generator raised %s, the run raised %s: %s %s" % (g.exc.__name__, type(e).__name__, str(e)[:100], tail(O)))
            if g.fail_at is None:
                raise Violation("generator-error-lost", "the generator raised %s at draw %d and the run returned normally %s" % (g.exc.__name__, o["at"], tail(O)))
            g.fail_at = None
            return
        s0 = g.state()
        draws = len(g.log)
        noise = what == "run"
        if not plan["threads"]:
            gs = np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()
        r = O.go(O.I, o, noise)
        if not plan["threads"]:
            if gs != (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()):
                raise Violation("other-source", "a %s run advanced a global random generator %s" % ("noisy" if noise else "noise-free", tail(O)))
        new = g.log[draws:]
        if not noise and (new or repr(g.state()) != repr(s0)):
            raise Violation("noise-free-draws", "a noise-free run drew %d times from the generator %s" % (len(new), tail(O)))
        if noise and not new:
            raise Violation("not-drawn", "a run with noise did not draw from its generator %s" % tail(O))
        if noise:
            saved[k].append(s0)
        todo.append((O, o, noise, s0, r, new))

    if plan["threads"]:
        gs = np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()
        sch = core.ThreadSched(sim)

        def body(k):
            for kk, what, o in plan["ops"]:
                if kk == k and what != "global":
                    one(objs[k], k, what, o)

        ths = [sch.spawn(lambda k=k: body(k), "t%d" % k) for k in range(len(objs))]
        sch.run_all()
        for t in ths:
            if t.exc is not None:
                raise t.exc
        if gs != (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()):
            raise Violation("other-source", "runs with their own generators advanced a global random generator")
    else:
        for k, what, o in plan["ops"]:
            sim.ev(k, what)
            one(objs[k], k, what, o)
    # -- each alone, afterwards, in a process where nothing else happens
    np.random.seed(12345)
    noisy = []
    for O, o, noise, s0, r, new in todo:
        g2 = Gen(O.spec["kind"], 1)
        g2.set_state(s0)
        alone = O.go(O.make(g2), o, noise)
        for key in r:
            try:
                w.same(key, (r[key],), (alone[key], 1e-11, 1e-6), "run of %d steps%s %s" % (o["n"], "" if noise else " without noise", tail(O)), "not-reproduced")
            except Violation as v:
                raise Violation("not-reproduced", v.msg + ": a new integrator with the generator in the same state gives another trajectory")
            n += 1
        if noise and (len(new) != len(g2.log) or any(not np.array_equal(a, b) for a, b in zip(new, g2.log))):
            raise Violation("not-reproduced", "the draws of a run differ from those of the same run alone %s" % tail(O))
        if O.spec["what"] == "int":
            s = O.spec
            N = o["n"] + o["n0"]
            white = None
            if not noise:
                nz = np.zeros((N, s["dim"]))
            elif len(new) == s["dim"] and all(np.shape(a) == (N,) for a in new):
                white = np.stack(new)
                nz = ref.colored_noise(O.K, s["dt"], white)
            else:
                nz = None
            if nz is not None:
                x0 = O.x0(o)
                i0 = (np.zeros((1, s["dim"])),) * 2 if x0 is None else (x0["x"].values, x0["v"].values)
                rx, rv = ref.integrate(O.rb.B, O.rb.D, s["ck"], O.coeff, O.K, s["dt"], N, i0[0], i0[1], nz)
                if np.isfinite(rx).all() and np.abs(rx).max() < 1e3 and np.abs(rv).max() < 1e3:
                    for key, a in (("x", rx), ("v", rv)):
                        w.same(key, (r[key],), (a, 1e-6, 1e-3), "run of %d steps with the recorded draws %s" % (N, tail(O)), "not-from-draws")
                        n += 1
        if noise:
            noisy.append((O, o, repr(s0), r))
    for a in range(len(noisy)):  # fresh numbers: the same run from another state of the generator is another trajectory
        for b in range(a + 1, len(noisy)):
            A, B = noisy[a], noisy[b]
            if A[0] is B[0] and A[2] != B[2] and A[3]["x"].shape == B[3]["x"].shape and A[1]["n0"] == B[1]["n0"]:
                if np.array_equal(A[3]["x"], B[3]["x"]) and np.isfinite(A[3]["x"]).all():
                    raise Violation("not-fresh", "two runs with different draws give the same trajectory %s" % tail(A[0]))
    return {"counts": {"arrays_compared": n, "runs": len(todo), "noisy_runs": len(noisy), "generator_errors": fails}, "nontrivial": len(noisy) >= 2}
