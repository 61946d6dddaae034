"""C04: objects do not influence each other, and inputs stay the caller's."""

import pickle

import numpy as np

from .. import calib as C
from .. import fields as F
from .. import seams
from ..core import Violation
from . import c01

ID = "C04"
RUNS = {"quick": 500, "thorough": 15000}
LEVEL = "exploration"
RULE = (
    "one run = 2-4 tasks (field generation and calibration, several built from the same input objects) interleaved by a seeded scheduler "
    "that preempts at calls, stores and loop back-edges of package code and at FFT boundaries, each compared with the same task run alone in a "
    "pristine process; distinct = distinct event logs (schedule points, preemptions taken, results)"
)
REAL = ["FluctuationFieldGenerator", "LowFreqGenerator", "CalibrationProblem", "LossAggregator", "OnePointSpectra", "torch optimisers"]
STUB = ["thread scheduling (one thread at a time, switches chosen by the plan)", "FFTW planner choice", "tensorboard writer thread"]
ASSUMPTIONS = ["concurrent use means different objects in different threads; one object shared by several threads is not claimed"]
MIN_LEN = {"tasks": 1}


def gen(rng, tier, idx):
    tasks = []
    base = F.rng_spec(rng, two_d=0.35, drd=0.15)
    cbase = C.rng_spec(rng, epochs=(1, 2))
    cbase["double"] = False
    long = rng.chance(0.03)
    if long:  # long enough for the learning-rate adjustment every 50 epochs
        cbase.update(epochs=rng.pick([51, 60]), wolfe=2, k1=4, npts=6, tol=1e-9)
    for _ in range(rng.randrange(2, 5)):
        if not long and rng.chance(0.65):
            s = c01.twist(rng, base) if rng.chance(0.7) else F.rng_spec(rng, two_d=0.3, drd=0.1)
            tasks.append(
                {
                    "kind": "field",
                    "spec": s,
                    "calls": [{"n": rng.randrange(1, 3), "prof": p} for p in F.profiles(rng, rng.randrange(1, 4))],
                    "share": s["dims"] == base["dims"] and s["levels"] == base["levels"] and rng.chance(0.6),
                    "scribble": rng.chance(0.5),
                }
            )
        else:
            s = dict(cbase)
            share = rng.chance(0.6)
            if not share:
                k = rng.randrange(4)
                if k == 0:
                    s["L"], s["Gamma"] = round(s["L"] * 1.5, 3), round(s["Gamma"] * 0.8, 3)
                elif k == 1:
                    s["kind"] = rng.pick(["TAUNET", "MANN_APPROX", "TWOTHIRD"])
                elif k == 2:
                    s["npts"] += 2
                else:
                    s["pen1"], s["beta"], s["lr"] = 0.7, 1e-2, 0.35
            tasks.append({"kind": "calib", "spec": s, "salt": rng.randrange(1000), "share": share, "tensor": rng.chance(0.6), "twice": rng.chance(0.3), "scribble": rng.chance(0.5)})
    return {
        "base": base,
        "cbase": cbase,
        "tasks": tasks,
        "mode": "steps" if long else rng.pick(["threads", "threads", "steps"]),
        "switches": [[rng.pick([0, 1, 2, 5, 15, 40, 120]), rng.randrange(4)] for _ in range(rng.randrange(5, 60))],
        "order": [[rng.randrange(4)] for _ in range(30)],
    }


def warm():
    F.warm()
    C.warm()


class Shared:
    """Objects the caller owns and passes to several constructors."""

    def __init__(self, plan):
        b = plan["base"]
        self.dims = np.array(b["dims"])
        self.levels = np.array(b["levels"], dtype=int)
        self.cfg = dict(b["cfg2d"]) if b["cfg2d"] else None
        self.params = {}
        self.data = C.data(plan["cbase"])
        self.vectors = {}
        self.cbase = plan["cbase"]

    def fingerprint(self):
        d = {k: (v.numpy().tobytes() if v is not None else None) for k, v in self.data.items()}
        vec = {k: (v.numpy().tobytes() if hasattr(v, "numpy") else v.tobytes()) for k, v in sorted(self.vectors.items())}
        cfg = None
        if self.params:
            cfg = pickle.dumps([_plain(self.params[k]) for k in sorted(self.params)])
        return {"grid_dimensions": self.dims.tobytes(), "grid_levels": self.levels.tobytes(), "config_2d": repr(self.cfg), "data": repr(d), "vectors": repr(vec), "parameters": cfg}

    def vector(self, spec, salt, n, tensor, own=False):
        import torch

        if own:
            w = C.weights(spec, n, salt)
            return torch.tensor(w) if tensor else w
        key = (salt, n, tensor)
        if key not in self.vectors:
            w = C.weights(spec, n, salt)
            self.vectors[key] = torch.tensor(w) if tensor else w
        return self.vectors[key]


def _plain(obj):
    out = []
    for k in sorted(vars(obj)):
        v = vars(obj)[k]
        out.append((k, v.numpy().tobytes() if hasattr(v, "numpy") else str(v)))
    return out


def _field(task, sh):
    spec = task["spec"]
    dims = sh.dims if task["share"] else np.array(spec["dims"])
    levels = sh.levels if task["share"] else np.array(spec["levels"], dtype=int)
    cfg = sh.cfg if task["share"] and spec["cfg2d"] and sh.cfg == spec["cfg2d"] else (dict(spec["cfg2d"]) if spec["cfg2d"] else None)
    g = F.build(spec, dims=dims, levels=levels, cfg=cfg)
    if task["scribble"] and not task["share"]:  # the caller goes on using its own arrays
        dims *= 3
        levels += 1
        if cfg:
            cfg["L_2d"] *= 2
    yield None
    out = []
    for c in task["calls"]:
        a = F.gen(g, c["n"], c["prof"])
        out.append((a, a.copy()))
        yield None
    for a, snap in out:
        if not F.same_bits(a, snap):
            raise Violation("returned-array-changed", "an array returned by one generator changed later")
    yield [s for _, s in out]


FAILED = np.full(7, -1.0)


def _calib(task, sh, logdir, start=None):
    spec = task["spec"]
    pb = C.build(spec, logdir, None, sh.params if task["share"] else None)
    yield None
    n = len(pb.parameters)
    vec = sh.vector(spec, _salt(task), n, task["tensor"], own=not task["share"]) if start is None else start
    pb.parameters = vec
    if not task["share"] and start is None and task.get("scribble"):  # the caller goes on using its own vector
        vec *= 0
    yield None
    d = sh.data if task["share"] else C.data(spec)
    try:
        res = C.run(pb, spec, d=d)
        yield None
        if task["twice"]:
            C.run(pb, spec, d=d)
            yield None
    except (ValueError, RuntimeError):  # the fit diverged
        yield [FAILED]
        return
    yield [C.snapshot(pb), C.evaluate(pb, spec), np.array([float(res[k]) for k in res])]


def _salt(task):
    return task["salt"] % 3 if task["share"] else task["salt"]


def _shaky(plan, task, want, ctx):
    """See calib.shaky: is this fit decided by rounding errors?"""
    spec = task["spec"]

    def solve(start):
        seams.install_writer(ctx, "eager")
        return _drain(_calib(task, Shared(plan), ctx.dir("logs"), start))

    def same(r):
        return len(r) == len(want) and all(F.close(np.asarray(a, float), np.asarray(b, float), 1e-4) for a, b in zip(r, want))

    n = seams.in_fork(lambda: len(C.build(spec, ctx.dir("logs")).parameters))
    bad = C.shaky(solve, C.weights(spec, n, _salt(task)), same)
    ctx.probe("ill-conditioned" if bad else "well-conditioned-difference")
    return bad


def _gen_of(task, sh, ctx):
    return _field(task, sh) if task["kind"] == "field" else _calib(task, sh, ctx.dir("logs"))


def _drain(it):
    last = None
    for x in it:
        last = x
    return last


def _alone(plan, i, ctx):
    seams.FFTSeam(ctx).install()
    seams.install_writer(ctx, "eager")
    return _drain(_gen_of(plan["tasks"][i], Shared(plan), ctx))


def execute(plan, ctx):
    import torch

    torch.set_default_dtype(torch.float32)
    tasks = plan["tasks"]
    for t in tasks:
        if t["kind"] == "field" and t["spec"]["model"] == "DRD":
            F.drd_file(t["spec"])
            torch.set_default_dtype(torch.float32)
    refs = [seams.in_fork(_alone, plan, i, ctx) for i in range(len(tasks))]
    fft = seams.FFTSeam(ctx).install()
    seams.install_writer(ctx, "eager")
    sh = Shared(plan)
    # the caller's parameter objects exist before anybody uses them
    if any(t["kind"] == "calib" and t["share"] for t in tasks):
        sh.params.update(C.records(plan["cbase"]))
        made = sh.fingerprint()["parameters"]
        pb = C.build(plan["cbase"], ctx.dir("logs"), None, sh.params)
        n = len(pb.parameters)
        for t in tasks:
            if t["kind"] == "calib" and t["share"]:
                sh.vector(plan["cbase"], t["salt"] % 3, n, t["tensor"])
    before = {k: v for k, v in sh.fingerprint().items()}
    if sh.params:
        before["parameters"] = made
    known = set(sh.vectors)
    ctx.event(plan["mode"], [t["kind"] + ("*" if t["share"] else "") for t in tasks])
    its = [_gen_of(t, sh, ctx) for t in tasks]
    results = {}
    if plan["mode"] == "threads":
        sch = seams.Scheduler(ctx, plan["switches"])
        fft.on_exec = sch.point
        results, errors = sch.run([(lambda it=it: _drain(it)) for it in its])
        fft.on_exec = None
        ctx.event("steps", sch.steps, "preempted", sch.taken)
        for e in errors.values():
            raise e
    else:
        live = list(range(len(its)))
        order = [o[0] for o in plan["order"]]
        n = 0
        while live:
            i = live[(order[n % len(order)] if order else 0) % len(live)]
            n += 1
            try:
                v = next(its[i])
                if v is not None:
                    results[i] = v
            except StopIteration:
                live.remove(i)
        ctx.event("turns", n)
        ctx.fault("interleaved-step", n)
    for i, (t, want) in enumerate(zip(tasks, refs)):
        got = results[i]
        if len(got) != len(want):
            if _shaky(plan, t, want, ctx):
                continue
            raise Violation("interference", f"task {i} ({t['kind']}): the fit {'fails' if len(want) > 1 else 'succeeds'}, unlike the same task run alone")
        for j, (a, b) in enumerate(zip(got, want)):
            tol = 1e-6 if t["kind"] == "field" else 1e-4
            if not F.close(np.asarray(a, float), np.asarray(b, float), tol):
                if t["kind"] == "calib" and _shaky(plan, t, want, ctx):
                    break
                what = f"after call {j}" if t["kind"] == "field" else ["parameters", "model values", "returned scales"][j]
                raise Violation("interference", f"task {i} ({t['kind']}), {what}: result differs from the same task run alone: {F.gap(np.asarray(a, float), np.asarray(b, float))}")
        ctx.probe(t["kind"])
    after = sh.fingerprint()
    if set(sh.vectors) != known:
        before.pop("vectors")
    for k, v in before.items():
        if after[k] != v:
            raise Violation("input-modified", f"the caller's {k} changed")
    ctx.probe(plan["mode"])
