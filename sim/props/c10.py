"""C10: plotting the losses of run i shows run i's losses, whatever order the filesystem lists the logs in."""

import os
import random

import numpy as np

from .. import calib as C
from .. import seams
from ..core import Violation

ID = "C10"
RUNS = {"quick": 300, "thorough": 8000}
LEVEL = "exploration"
RULE = (
    "one run = one seeded history of calibrations (some ending by interrupt or process death, some in restarted processes, some several days apart by the "
    "simulated clock) logging into one directory, followed by plots of several run numbers under seeded directory-listing orders; plotted curves are compared "
    "with the loss records of that run; distinct = distinct event logs"
)
REAL = ["CalibrationProblem.plot_losses", "plot_loss_logs", "tensorboard event accumulator", "torch SummaryWriter", "matplotlib (Agg canvas)"]
STUB = ["clock", "tensorboard writer thread", "directory listing order", "process death"]
ASSUMPTIONS = ["runs are numbered by the second they started in; runs sharing a second are only required to be told apart consistently"]
MIN_LEN = {"cals": 1, "asks": 1}


def gen(rng, tier, idx):
    cals = []
    same_spec = C.rng_spec(rng, kinds=("TAUNET", "CONST", "TWOTHIRD"), epochs=(1, 2))
    for _ in range(rng.randrange(1, 6)):
        spec = dict(same_spec if rng.chance(0.5) else C.rng_spec(rng, kinds=("TAUNET", "CONST", "TWOTHIRD"), epochs=(1, 2)))
        spec["k1"], spec["npts"] = 4, 6
        spec["wolfe"] = 3
        if rng.chance(0.02):  # a long record: summaries and reservoirs must not thin it out
            spec["wolfe"], spec["epochs"], spec["tol"], spec["adam"] = 25, rng.randrange(4, 9 if tier == "quick" else 60), 1e-12, False
        cals.append({"spec": spec, "salt": rng.randrange(1000), "end": rng.pick(["ok", "ok", "ok", "ok", "kill"]), "frac": rng.random(), "gap": rng.pick([0.0, 1.2, 1.2, 30.0, 90000.0, 3e6])})
        if rng.chance(0.07):  # a very long record, written straight through the log writer
            cals[-1].update(end="written", records=rng.pick([120, 700, 700, 2600, 5200, 11000]))
    return {
        "cals": cals,
        "asks": [{"i": rng.randrange(8), "neg": rng.chance(0.25), "shuffle": rng.getrandbits(31), "touch": rng.getrandbits(31) if rng.chance(0.4) else None} for _ in range(rng.randrange(1, 4))],
        "clock": {"seed": rng.getrandbits(31), "start": rng.pick([1.7e9, 1.7e9 + 0.7, 1.2345e9]), "tick": 1e-6},
        "writer": rng.pick(["eager", "random", "stalled"]),
        "wseed": rng.getrandbits(31),
    }


def warm():
    C.warm()
    import contextlib
    import io

    import matplotlib.pyplot as plt
    from tensorboard.backend.event_processing.event_accumulator import EventAccumulator  # noqa: F401

    with contextlib.redirect_stdout(io.StringIO()):
        fig, ax = plt.subplots(1, 2, figsize=(12, 4))
        ax[0].plot([1, 2])
        ax[0].set_yscale("log")
        ax[0].set_title("warm")
        fig.text(0.5, 0.01, "w", ha="center")
        fig.tight_layout()
        plt.close("all")


def _second(path):
    """Start second of a run: the time recorded in its first event."""
    import struct

    raw = open(path, "rb").read(64)
    if len(raw) < 21:
        return None
    # record header is 12 bytes; the event's first field is wall_time as a double
    return int(struct.unpack("<d", raw[13:21])[0])


def _curves(pb, i):
    import matplotlib.pyplot as plt

    before = set(plt.get_fignums())
    pb.plot_losses(i)
    new = sorted(set(plt.get_fignums()) - before)
    out = {}
    for n in new:
        for ax in plt.figure(n).axes:
            for ln in ax.get_lines():
                out[ax.get_title()] = np.asarray(ln.get_ydata(), float)
    plt.close("all")
    return out


def _written(logs, c):
    from torch.utils.tensorboard import SummaryWriter

    w = SummaryWriter(log_dir=logs)
    rs = np.random.RandomState(c["salt"])
    tags = ["MSE Loss", "1st Order Penalty", "2nd Order Penalty", "Regularization"][: 1 + c["salt"] % 2]
    for k in range(c["records"]):
        for t in tags:
            w.add_scalar(t, float(np.exp(rs.normal(-k / c["records"], 0.5))), max(0, k - 1))
    w.flush()
    return "ok"


def execute(plan, ctx):
    logs = ctx.dir("logs")
    from matplotlib.figure import Figure

    if plan["wseed"] % 8:
        Figure.tight_layout = lambda *a, **k: None  # margins only, and half the cost of a run
    clock = seams.Clock(ctx, **plan["clock"]).install()
    runs = []  # file name, in order of the calibrations
    for n, c in enumerate(plan["cals"]):
        spec = c["spec"]
        before = set(os.listdir(logs))

        def dry():
            seams.install_writer(ctx, "eager")
            pb = C.start(C.build(spec, ctx.dir("dry")), spec, c["salt"])
            with seams.Interruptor() as it:
                try:
                    C.run(pb, spec)
                except (ValueError, RuntimeError):
                    pass
            return it.n

        pts = seams.in_fork(dry) if c["end"] == "kill" else 0

        def body():
            seams.install_writer(ctx, plan["writer"], plan["wseed"] + n)
            if c["end"] == "written":
                return _written(logs, c)
            pb = C.start(C.build(spec, logs), spec, c["salt"])
            try:
                if c["end"] == "kill":
                    with seams.Interruptor(int(c["frac"] * pts), "kill"):
                        C.run(pb, spec)
                else:
                    C.run(pb, spec)
            except (ValueError, RuntimeError):
                return "raised"
            return "ok"

        r = seams.in_fork(body, raw=True)
        if r.error:
            if r.error[2]:
                raise Violation(f"unexpected-{r.error[0]}", r.error[1])
            raise RuntimeError(r.error[1])
        how = "killed" if r.code == 77 else r.value
        if how == "killed":
            ctx.fault("process-death")
        new = set(os.listdir(logs)) - before
        if len(new) == 1:
            runs.append(new.pop())
        ctx.event("calibration", n, how, "gap", c["gap"])
        clock.t += c["gap"]
        clock.ctx.sim_seconds += c["gap"]
    if not runs:
        return
    recs = {os.path.basename(k): v for k, v in C.events(logs).items()}
    secs = {f: _second(os.path.join(logs, f)) for f in runs}
    pb = C.build(plan["cals"][0]["spec"], logs)
    shown = {}
    for a in plan["asks"]:
        i = a["i"] % len(runs)
        if a["neg"]:
            i -= len(runs)
        f = runs[i]
        by = {}
        for tag, _, val in recs[f]:
            by.setdefault(tag, []).append(val)
        if secs[f] is None or not by:
            ctx.event("run", i, "left no records")
            continue
        if a.get("touch") is not None:
            # the directory was copied or synchronised: modification times say nothing about the runs
            rs = random.Random(a["touch"])
            for g in sorted(os.listdir(logs)):
                t = plan["clock"]["start"] + rs.uniform(0, 1e7)
                os.utime(os.path.join(logs, g), (t, t))
            ctx.fault("file-times-scrambled")
        seams.shuffle_dirs(ctx, a["shuffle"])
        ctx.fault("shuffled-listing")
        got = _curves(pb, i)
        peers = [g for g in runs if secs[g] == secs[f]]
        ok = [g for g in peers if _shows(got, recs[g])]
        if None in secs.values() and not ok:
            ok = [g for g in runs if _shows(got, recs[g])]
        if not ok:
            other = [runs.index(g) for g in runs if _shows(got, recs[g])]
            raise Violation("wrong-run", f"asked for run {i} of {len(runs)}; the plot shows " + (f"run {other}" if other else "no run's losses"))
        key = i % len(runs)
        sig = {t: np.asarray(v, float).tobytes() for t, v in got.items()}  # bytes: a NaN equals itself
        if shown.setdefault(key, sig) != sig:
            raise Violation("inconsistent", f"run {i} plotted twice under different listing orders shows different losses")
        ctx.event("plot", i, "of", len(runs), "peers", len(peers))
        ctx.probe("plots")


def _shows(got, recs):
    """Every scalar of the run is drawn, as the tail of its recorded values (the first points may be left out)."""
    by = {}
    for tag, _, val in recs:
        by.setdefault(tag, []).append(val)
    if set(got) != set(by):
        return False
    for t, y in got.items():
        v = np.asarray(by[t], float)
        if len(y) > len(v) or len(y) < len(v) - 2:
            return False
        if len(y) and not np.allclose(y, v[len(v) - len(y) :], rtol=1e-6, atol=0, equal_nan=True):
            return False
    return True
