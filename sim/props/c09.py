"""C09: the training log on disk is the complete, ordered record of the loss evaluations, whatever the writer thread or the process's death does."""

import json
import math
import os
import pickle

import numpy as np

from .. import calib as C
from .. import seams
from ..core import Violation

ID = "C09"
RUNS = {"quick": 700, "thorough": 20000}
LEVEL = "exploration"
RULE = (
    "one run = one seeded sequence of calibrations logging into one directory, with the log writer thread eager, seeded or never scheduled, a jumping clock, "
    "and each calibration ending normally, by bad data, by an interrupt or by the death of its process at a seeded point; the log files are compared with the "
    "losses the optimiser itself was given; distinct = distinct event logs"
)
REAL = ["CalibrationProblem", "LossAggregator", "OnePointSpectra", "torch LBFGS/Adam", "torch SummaryWriter", "tensorboard record encoding and decoding"]
STUB = ["clock", "tensorboard writer thread (scheduled by the plan)", "process death (exit without cleanup)"]
ASSUMPTIONS = ["a process that dies loses what it had not handed to the operating system, and nothing else (no power loss)"]
MIN_LEN = {"cals": 1}
TERMS = ("MSE Loss", "1st Order Penalty", "2nd Order Penalty", "Regularization", "Coherence Loss/Total")


def gen(rng, tier, idx):
    cals = []
    for _ in range(rng.pick([1, 1, 2, 2, 3])):
        spec = C.rng_spec(rng, coherence=0.03, epochs=(1, 5))
        if spec["coh"]:
            spec["epochs"], spec["wolfe"], spec["gamma_coh"] = 1, 2, 1.0
        cals.append(
            {
                "spec": spec,
                "end": rng.pick(["ok", "ok", "ok", "kill", "kill", "kill", "interrupt", "memory", "bad"]),
                "frac": rng.random(),
                "where": rng.pick(["any", "any", "late"]),
                "join": rng.chance(0.45),  # in the process of the calibration before
                "same": rng.chance(0.5),  # and then with the same problem object
                "comment": rng.pick(["", "", "net-a"]),
            }
        )
    return {
        "cals": cals,
        "writer": rng.pick(["stalled", "stalled", "random", "eager"]),
        "wseed": rng.getrandbits(31),
        "clock": {"seed": rng.getrandbits(31), "jump_p": rng.pick([0.0, 0.3]), "start": rng.pick([1.7e9, 1.6e9 + 0.999])},
        "logs": rng.pick(["dir", "dir", "dir", "nested", "default"]),
    }


def warm():
    C.warm()


class Watch:
    """What the optimiser was given, written aside as it happens: epochs begun, and the loss of every evaluation."""

    def to(self, path):
        self.fd = os.open(path, os.O_CREAT | os.O_WRONLY | os.O_APPEND)

    def put(self, **k):
        os.write(self.fd, (json.dumps(k) + "\n").encode())

    def install(self):
        import torch

        for cls in (torch.optim.LBFGS, torch.optim.Adam):
            self._wrap(cls)

    def _wrap(self, cls):
        real = cls.step
        watch = self

        def step(opt, closure=None):
            watch.put(epoch=1)

            def told():
                v = closure()
                watch.put(loss=float(v))
                return v

            return real(opt, told)

        cls.step = step


def _read(path):
    """[[losses of epoch 1], [losses of epoch 2], ...]"""
    eps = []
    for line in open(path):
        r = json.loads(line)
        if "epoch" in r:
            eps.append([])
        else:
            eps[-1].append(r["loss"])
    return eps


def _files(root):
    out = {}
    for base, _, files in os.walk(root):
        for f in files:
            if "tfevents" in f:
                p = os.path.join(base, f)
                out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def _calibrate(c, logdir, cohfile, it=None, pb=None):
    spec = c["spec"]
    if pb is None:
        pb = C.build(spec, logdir)
    C.start(pb, spec)
    d = C.data(spec)
    if c["end"] == "bad":
        d["ops"][0, 0, 0] = math.nan
    import torch

    kw = {"optimizer_class": torch.optim.Adam} if spec["adam"] else {}
    if cohfile:
        kw["coherence_data_file"] = cohfile
    if it is None:
        pb.calibrate(data=d, tb_comment=c["comment"], **kw)
    else:
        with it:
            pb.calibrate(data=d, tb_comment=c["comment"], **kw)
    return float(pb.loss)


def _count(c, logdir, cohfile):
    it = seams.Interruptor()
    try:
        _calibrate(dict(c, end="ok"), logdir, cohfile, it)
    except (ValueError, RuntimeError):
        pass
    return it.n


def _verify(recs, eps, spec, complete, name, ctx):
    """recs: [(tag, step, value)] of one log file; eps: losses the optimiser saw, by epoch."""
    by = {}
    for tag, step, val in recs:
        by.setdefault(tag, []).append((step, val))
    must = sum(len(e) for e in (eps if complete else eps[:-1]))
    seen = [x for e in eps for x in e]
    mse = by.get("MSE Loss", [])
    if len(mse) < must + 1 and (must or complete):
        raise Violation("records-lost", f"{name}: the optimiser finished {must} loss evaluations in {len(eps) - (not complete)} epochs; the log on disk holds {max(0, len(mse) - 1)} of them")
    steps = [s for s, _ in mse]
    if mse and steps != [0, *range(len(mse) - 1)]:
        raise Violation("records-disordered", f"{name}: steps {steps} for the initial loss and {len(mse) - 1} evaluations")
    if complete and len(mse) != must + 1:
        raise Violation("records-invented", f"{name}: {len(mse) - 1} evaluations logged, {must} made")
    # terms at one step add up to the loss the optimiser was given at that evaluation
    for i in range(min(len(mse) - 1, len(seen))):
        if not math.isfinite(seen[i]):
            continue
        whole = complete or i < must
        tot = 0.0
        n = 0
        for t in TERMS:
            r = by.get(t, [])
            # the initial loss (without coherence) comes first, under step 0
            lead = 0 if t.startswith("Coherence") else 1
            if len(r) > i + lead:
                if r[i + lead][0] != i:
                    raise Violation("records-disordered", f"{name}: {t!r} record {i + lead} has step {r[i + lead][0]}, evaluation {i}")
                tot += r[i + lead][1]
                n += 1
            elif r and whole:
                raise Violation("records-lost", f"{name}: no {t!r} record for evaluation {i}")
        if whole and abs(tot - seen[i]) > 1e-4 * max(1e-6, abs(seen[i])):
            raise Violation("values-wrong", f"{name}: evaluation {i}: the logged terms add up to {tot}, the optimiser was given {seen[i]} ({n} terms)")
    for t in TERMS:
        lead = 0 if t.startswith("Coherence") else 1
        if complete and t in by and len(by[t]) != must + lead:
            raise Violation("records-lost", f"{name}: {len(by[t])} records of {t!r} for {must} evaluations")
    ctx.probe("records", len(recs))


def _sessions(cals):
    """Calibrations grouped by the process they run in; a death ends the process."""
    out = []
    for n, c in enumerate(cals):
        if n and c.get("join") and out[-1][-1][1]["end"] != "kill" and c["spec"]["double"] == out[-1][-1][1]["spec"]["double"]:
            prev = out[-1][-1][1]
            if c.get("same"):
                c = dict(c, spec=prev["spec"], reuse=True)
            out[-1].append((n, c))
        else:
            out.append([(n, c)])
    return out


def execute(plan, ctx):
    cwd = ctx.dir("cwd")
    os.chdir(cwd)
    logdir = {"dir": ctx.dir("logs"), "nested": os.path.join(ctx.scratch, "x", "y"), "default": None}[plan["logs"]]
    root = logdir or os.path.join(cwd, "runs")
    clock = seams.Clock(ctx, **plan["clock"]).install()
    known = {}
    os.makedirs(root, exist_ok=True)

    def cohfile(n, spec):
        if not spec["coh"]:
            return None
        p = os.path.join(ctx.scratch, f"coh{n}.dat")
        C.write_coherence(p, C.coherence_rows(spec["coh"]))
        return p

    for group in _sessions(plan["cals"]):
        at = {}
        for n, c in group:
            if c["end"] in ("kill", "interrupt", "memory"):

                def dry():
                    seams.install_writer(ctx, "eager")
                    return _count(c, ctx.dir("dry-logs"), cohfile(n, c["spec"]))

                pts = seams.in_fork(dry)
                at[n] = int((c["frac"] if c["where"] == "any" else 1 - 0.2 * c["frac"]) * pts)
                ctx.schedule_points += pts

        def one(n, c, pb):
            seams.install_writer(ctx, plan["writer"], plan["wseed"] + n) if n == group[0][0] else None
            coh = cohfile(n, c["spec"])
            try:
                if c["end"] == "kill":
                    _calibrate(c, logdir, coh, seams.Interruptor(at[n], "kill"), pb)
                elif c["end"] in ("interrupt", "memory"):
                    exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}[c["end"]]
                    try:
                        _calibrate(c, logdir, coh, seams.Interruptor(at[n], exc), pb)
                    except exc:
                        return "hit"
                else:
                    _calibrate(c, logdir, coh, None, pb)
            except (ValueError, RuntimeError) as e:
                return type(e).__name__
            return "returned"

        def body():
            watch = Watch()
            watch.install()
            pb = None
            for n, c in group:
                watch.to(os.path.join(ctx.scratch, f"side{n}"))
                if len(group) > 1 and not c.get("reuse"):
                    pb = C.build(c["spec"], logdir)
                how = one(n, c, pb)
                with open(os.path.join(ctx.scratch, f"done{n}"), "wb") as f:
                    pickle.dump((how, _files(root)), f)
                clock.t += 1.0 + clock.rng.random() * 50

        # the process of these calibrations ends without any clean-up; what reached the operating system stays
        r = seams.in_fork(body, raw=True)
        clock.t += 100.0 + clock.rng.random() * 50
        if r.error is not None:
            name, text, blame = r.error
            if blame:
                raise Violation(f"unexpected-{name}", text)
            raise RuntimeError(text)
        if r.code not in (0, 77):
            raise RuntimeError(f"calibration process ended with {r.code}")
        mine = {}  # file -> (calibration, its outcome)
        for n, c in group:
            p = os.path.join(ctx.scratch, f"done{n}")
            if os.path.exists(p):
                how, now = pickle.load(open(p, "rb"))
            else:
                how, now = "killed", _files(root)
            if how in ("killed", "hit"):
                ctx.fault("process-death" if how == "killed" else c["end"])
            if c["end"] == "bad":
                ctx.fault("bad-data")
            for k, v in known.items():
                # an interrupted calibration's queued records may still arrive while its process lives
                if now.get(k) != v and not (mine.get(k) == "hit" and (now.get(k) or b"").startswith(v)):
                    raise Violation("earlier-log-damaged", f"log {list(known).index(k)} changed while calibration {n} ran")
            new = sorted(set(now) - set(known))
            side = os.path.join(ctx.scratch, f"side{n}")
            eps = _read(side) if os.path.exists(side) else []
            ctx.event(c["end"], how, "epochs", len(eps), "evaluations", sum(len(e) for e in eps), "writer", plan["writer"])
            if len(new) > 1:
                raise Violation("records-scattered", f"calibration {n} wrote {len(new)} log files")
            if eps and not new:
                raise Violation("records-lost", f"calibration {n}: no log file")
            if new and eps:
                _verify(C.events_in(now[new[0]], ctx.scratch), eps, c["spec"], how == "returned", f"calibration {n} ({how})", ctx)
            if new:
                mine[new[0]] = how
            known = now
            ctx.probe(how)
            if len(group) > 1:
                ctx.probe("same-process")


del np
