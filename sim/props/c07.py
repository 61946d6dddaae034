"""C07: a fit is decided by its starting point, configuration and data; it reports failure instead of returning garbage."""

import errno
import math
import os

import numpy as np

from .. import calib as C
from .. import seams, zygote
from ..core import Violation

ID = "C07"
WORLDS = True
RUNS = {"quick": 700, "thorough": 20000}
LEVEL = "exploration"
RULE = (
    "one run = one calibration problem (model kind, components, optimiser, penalties, data incl. non-finite or zero entries, ordinary or wild starting "
    "point) solved in a pristine process and again under a seeded environment (jumping clock, log writer thread eager/random/stalled, log-directory "
    "contents and disk errors, garbage memory, other users of the global random streams); distinct = distinct event logs"
)
REAL = ["CalibrationProblem", "LossAggregator", "OnePointSpectra", "torch LBFGS/Adam", "tensorboard record encoding"]
STUB = ["clock", "tensorboard writer thread", "disk errors on the log directory", "contents of uninitialised memory"]
ASSUMPTIONS = ["equal results means 1e-4 of the largest magnitude (bitwise equality is expected and counted by a probe)"]


def gen(rng, tier, idx):
    spec = C.rng_spec(rng, coherence=0.02, epochs=(1, 4))
    if rng.chance(0.05):
        spec["epochs"] = rng.pick([51, 60])  # long enough for the learning-rate adjustment every 50 epochs
        spec["k1"], spec["npts"], spec["wolfe"], spec["coh"] = 4, 6, 2, None
    plan = {
        "spec": spec,
        "wild": rng.pick([0, 0, 0, 0, 0, 3.0, 15.0, 60.0]),
        "bad": {"kind": rng.pick(["nan", "inf", "zero", "ninf"]), "i": rng.randrange(64), "n": rng.randrange(1, 4)} if rng.chance(0.2) else None,
        "clock": {"seed": rng.getrandbits(31), "jump_p": rng.pick([0.0, 0.2, 0.7]), "start": rng.pick([1.0, 1.7e9, 4e9])},
        "writer": rng.pick(["eager", "random", "stalled"]),
        "wseed": rng.getrandbits(31),
        "dirty": rng.getrandbits(31) if rng.chance(0.6) else None,
        "stir": rng.getrandbits(31),
        "logs": rng.pick(["none", "fresh", "nested", "used", "used"]),
        "fault": None,
        "shuffle": rng.getrandbits(31),
        "world": rng.pick([None, None, 0, 1]),
        "cpus": rng.pick([1, 2, 8, 64]),
        "comment": rng.pick(["", "", "trial-7"]),
    }
    if rng.chance(0.3):
        plan["fault"] = {"kind": rng.pick(["err", "err", "full", "short", "eintr"]), "frac": rng.random() ** 2, "err": rng.pick([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT]), "part": rng.random()}
    return plan


def warm():
    C.warm()


def _data(plan):
    d = C.data(plan["spec"])
    b = plan["bad"]
    if b:
        ops = d["ops"]
        comps = [(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)][: plan["spec"]["ncomp"]]
        for k in range(b["n"]):
            i, (r, c) = (b["i"] + 3 * k) % ops.shape[0], comps[(b["i"] + k) % len(comps)]
            ops[i, r, c] = {"nan": math.nan, "inf": math.inf, "ninf": -math.inf, "zero": 0.0}[b["kind"]]
    return d


def _start(pb, plan, w=None):
    if w is not None:
        pb.parameters = w
        return w
    w = C.weights(plan["spec"], len(pb.parameters))
    if plan["wild"]:
        rs = np.random.RandomState(plan["spec"]["wseed"] & 0x7FFFFFFF)
        w = w + (rs.uniform(-1, 1, w.shape) * plan["wild"]).astype(w.dtype)
    pb.parameters = w
    return w


def _solve(plan, logdir, cohfile, w=None, comment=None):
    """('ok', parameters, values, returned, loss) or ('raised', name)."""
    spec = plan["spec"]
    pb = C.build(spec, logdir)
    _start(pb, plan, w)
    d = _data(plan)
    keep = {k: (v.numpy().tobytes() if v is not None else None) for k, v in d.items()}
    try:
        res = C.run(pb, spec, cohfile, d, comment)
    except OSError as e:
        return ("oserror", e.errno, C.snapshot(pb))
    except (ValueError, RuntimeError, FloatingPointError) as e:
        return ("raised", type(e).__name__, C.snapshot(pb))
    for k, v in d.items():
        if keep[k] is not None and v.numpy().tobytes() != keep[k]:
            raise Violation("data-modified", f"calibrating changed the caller's {k} data")
    return ("ok", C.snapshot(pb), C.evaluate(pb, spec), {k: float(v) for k, v in res.items()}, float(pb.loss))


def _plain(plan, d, cohfile, ctx, w=None):
    seams.install_writer(ctx, "eager")
    return _solve(plan, d, cohfile, w)


def _elsewhere(plan, cohfile, ctx):
    return _plain(plan, ctx.dir("ref-logs"), cohfile, ctx)


def _near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    ok = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), ok):
        return False
    return bool(np.max(np.abs(a[ok] - b[ok]), initial=0) <= 1e-4 * max(1e-30, np.max(np.abs(b[ok]), initial=0)))


def _judge(got, want, where, shaky=None):
    """shaky(same): asked before a difference is reported, see calib.shaky."""
    try:
        _compare(got, want, where)
    except Violation:
        if shaky is not None and "oserror" not in (got[0], want[0]) and shaky(lambda r: _same(r, want)):
            return False
        raise
    return True


def _same(got, want):
    try:
        _compare(got, want, "")
    except Violation:
        return False
    return True


def _compare(got, want, where):
    if got[0] != want[0] or (got[0] == "raised" and got[1] != want[1]):
        raise Violation("outcome-differs", f"{where}: {got[:2] if got[0] != 'ok' else 'returned'} instead of {want[:2] if want[0] != 'ok' else 'a result'}")
    if got[0] == "ok":
        for name, a, b in (("parameters", got[1], want[1]), ("model values", got[2], want[2]), ("returned scales", list(got[3].values()), list(want[3].values())), ("final loss", got[4], want[4])):
            if not _near(a, b):
                raise Violation("result-differs", f"{where}: {name} differ from the pristine run: {np.asarray(a).ravel()[:6]} vs {np.asarray(b).ravel()[:6]}")
        if list(got[3]) != list(want[3]):
            raise Violation("result-differs", f"{where}: returned {list(got[3])} instead of {list(want[3])}")


def _sound(r, plan):
    """What a returned fit must look like."""
    if r[0] != "ok":
        return
    par, _, res, loss = r[1:]
    spec = plan["spec"]
    if not np.all(np.isfinite(par)) or not all(math.isfinite(v) for v in res.values()) or not math.isfinite(loss):
        raise Violation("garbage-returned", f"calibrate returned normally with parameters {par[:6]}, loss {loss}")
    if plan["bad"]:
        raise Violation("garbage-returned", f"calibrate accepted data containing {plan['bad']['kind']} and returned a fit")
    vals = list(res.values())
    want = [*(math.exp(float(x)) for x in par[:3]), *([float(par[3]), float(par[4])] if spec["spectrum"] else [])]
    if len(vals) != len(want) or any(abs(a - b) > 1e-4 * abs(b) for a, b in zip(vals, want)):
        raise Violation("scales-mismatch", f"returned {res}, parameters say {want}")


def execute(plan, ctx):
    spec = plan["spec"]
    cohfile = None
    if spec["coh"]:
        cohfile = os.path.join(ctx.scratch, "coh.dat")
        C.write_coherence(cohfile, C.coherence_rows(spec["coh"]))
    if plan.get("world") is None:
        want = seams.in_fork(_plain, plan, ctx.dir("ref-logs"), cohfile, ctx)
    else:
        want = zygote.call(plan["world"], "c07", "_elsewhere", plan, cohfile)
        ctx.fault("other-interpreter")
    ctx.event(spec["kind"], spec["ncomp"], "adam" if spec["adam"] else "lbfgs", "epochs", spec["epochs"], "bad", plan["bad"] and plan["bad"]["kind"], "wild", plan["wild"], "->", want[0])
    _sound(want, plan)
    if plan["bad"] and want[0] == "ok":
        raise Violation("garbage-returned", "calibrate returned a fit to non-finite data")

    def shaky(same):
        w = seams.in_fork(lambda: _start(C.build(spec, ctx.dir("ref-logs")), plan))
        bad = C.shaky(lambda v: _plain(plan, ctx.dir("ref-logs"), cohfile, ctx, v), w, same)
        ctx.probe("ill-conditioned" if bad else "well-conditioned-difference")
        return bad

    logdir = {"none": None, "fresh": os.path.join(ctx.scratch, "logs"), "nested": os.path.join(ctx.scratch, "a", "b", "logs"), "used": ctx.dir("logs")}[plan["logs"]]
    if plan["logs"] == "used":
        for name, raw in (("events.out.tfevents.1600000000.host.1.0", b"\x10\x00garbage"), ("notes.txt", b"hello"), ("events.out.tfevents.9999999999.host.1.0", b"")):
            with open(os.path.join(logdir, name), "wb") as f:
                f.write(raw)
    seams.machine(ctx, plan.get("cpus", 1), plan["stir"])
    seams.Clock(ctx, **plan["clock"]).install()
    seams.install_writer(ctx, plan["writer"], plan["wseed"])
    seams.shuffle_dirs(ctx, plan["shuffle"])
    if plan["dirty"] is not None:
        seams.dirty_memory(ctx, plan["dirty"])
    with seams.global_noise(plan["stir"]) as stir:
        for _ in range(3):
            stir()
        ctx.fault("global-rng-use", 3)
        f = plan["fault"]
        if f:
            disk = seams.Disk()
            root = logdir or os.path.join(ctx.scratch, "runs")

            ops = ["open", "write", "close"]

            def count():
                disk.arm(root, ops)
                _solve(plan, logdir, cohfile, comment=plan["comment"])
                return disk.disarm()[0]

            n = seams.in_fork(count)
            disk.arm(root, ops, at=int(f["frac"] * n), kind=f["kind"], err=f["err"], frac=f["part"])
            got = _solve(plan, logdir, cohfile, comment=plan["comment"])
            seq, fired = disk.disarm()
            ctx.fault(f"log-{f['kind']}", int(fired > 0))
            ctx.event("log fault", f["kind"], int(f["frac"] * n), "of", n, got[0])
            ctx.schedule_points += n
            if got[0] == "oserror":
                if not fired:
                    raise Violation("outcome-differs", f"calibrate raised an I/O error ({got[1]}) that nothing injected")
            else:
                _judge(got, want, f"log directory {f['kind']}", shaky)
                _sound(got, plan)
            stir()
        got = _solve(plan, logdir, cohfile, comment=plan["comment"])
    _sound(got, plan)
    _judge(got, want, "other environment", shaky)
    if got[0] == "ok":
        ctx.probe("bitwise-equal" if got[1].tobytes() == want[1].tobytes() else "not-bitwise")
    else:
        ctx.probe(f"raised-{got[1]}")
    ctx.event("same", got[0])
