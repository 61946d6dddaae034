"""C08: a model's values depend on its parameters, not on what the object was used for before."""

import os
import random

import numpy as np

from .. import calib as C
from .. import seams, zygote
from ..core import Violation
from . import c07

ID = "C08"
WORLDS = True
RUNS = {"quick": 600, "thorough": 15000}
LEVEL = "exploration"
RULE = (
    "one run = one seeded history of uses of one problem object (set parameters, evaluate spectra on several grids, coherence, eddy lifetime, calibrate with "
    "and without coherence data, calibrations hit by an interrupt, allocation failure or bad data at a seeded point, save, plot), after every step the object "
    "is compared with a fresh one given the same parameters; distinct = distinct event logs"
)
REAL = ["CalibrationProblem", "OnePointSpectra", "LossAggregator", "eddy lifetime models", "TauNet", "torch LBFGS/Adam"]
STUB = ["tensorboard writer thread", "clock"]
ASSUMPTIONS = ["interrupts arrive where CPython 3.12 runs signal handlers", "equal means 1e-5 of the largest magnitude for values and 1e-4 for a whole fit"]
MIN_LEN = {"ops": 1}


def gen(rng, tier, idx):
    spec = C.rng_spec(rng, kinds=("TAUNET", "TAUNET", "MANN", "MANN_APPROX", "MANN_APPROX", "TWOTHIRD", "CONST"), epochs=(1, 2))
    coh = rng.chance(0.15)
    spec["coh"] = C.coherence_spec(rng) if coh else None
    if coh:
        spec["epochs"], spec["wolfe"] = 1, 2
        spec["coh"]["nfreq"] = 2
    ops = []
    heavy = 0
    for _ in range(rng.randrange(2, 7)):
        k = rng.randrange(20)
        if k < 4:
            ops.append({"op": "set", "salt": rng.randrange(50)})
        elif k < 8:
            ops.append({"op": "eval", "n": rng.randrange(1, 9), "lo": rng.pick([-6, -4, -2, -1, 0]), "warp": rng.pick([1, 1, 0.5, 2.0])})
        elif k < 10:
            ops.append({"op": "calib", "scale": rng.pick([1.0, 1.0, 0.01, 40.0]), "k1": rng.pick([None, None, 3, 11])})
        elif k < 14:
            ops.append({"op": "hit", "frac": rng.random(), "exc": rng.pick(["interrupt", "interrupt", "memory"])})
        elif k < 15:
            ops.append({"op": "bad"})
            ops.append({"op": "hiteval", "what": rng.pick(["eval", "eval", "tau", "shape", "type"]), "n": rng.randrange(4), "frac": rng.random(), "exc": rng.pick(["interrupt", "memory"])})
            if rng.chance(0.5):
                ops.pop(-2)
        elif k < 16:
            ops.append({"op": "tau", "n": rng.randrange(2, 9)})
        elif k < 17:
            ops.append({"op": rng.pick(["scribble", "phi", "phi"])})
        elif k < 18:
            ops.append({"op": "save"})
        elif coh and heavy < 2:
            heavy += 1
            ops.append({"op": rng.pick(["coherence", "coherence", "calibcoh"]), "n": rng.randrange(1, 3)})
        else:
            ops.append({"op": "eval", "n": 3, "lo": 0})
    long = rng.chance(0.03)
    if long:  # long enough for the learning-rate adjustment every 50 epochs
        spec.update(epochs=rng.pick([51, 60]), wolfe=2, k1=4, npts=6, coh=None, tol=1e-9)
        ops = [{"op": "calib", "scale": rng.pick([1.0, 1.0, 40.0]), "k1": None}] + ([ops[0]] if ops[0]["op"] in ("eval", "set", "tau", "phi") else [])
    return {"spec": spec, "ops": ops, "refit": long or rng.chance(0.7), "world": rng.pick([None, 0, 1]), "salt": rng.randrange(50), "ask": rng.getrandbits(31)}


def warm():
    C.warm()


def _seps(spec):
    import torch

    return torch.tensor([0.5 * spec["L"], 2.0 * spec["L"]])


def _grid(lo, hi, n, warp):
    """Wavenumbers from 10^lo to 10^hi; the warp moves the inner ones and leaves the ends where they are."""
    return 10 ** (lo + (hi - lo) * np.linspace(0, 1, n) ** warp)


def _probe(pb, spec, coherence, order=0):
    """Everything a user can ask the model for, asked in some order."""
    import torch

    dt = torch.get_default_dtype()

    def lifetime():
        k = torch.tensor(np.logspace(-2, 2, 5))[:, None].to(dt) * torch.tensor([[1.0, 0.3, -0.5]])
        with torch.no_grad():
            return pb.OPS.EddyLifetime(k.to(dt)).numpy().copy()

    def coher():
        with torch.no_grad():
            return pb.OPS.SpectralCoherence(C.k1_data(spec)[:2], _seps(spec).to(dt)).numpy().copy()

    def other():
        k = C.k1_data(spec)
        return np.array(pb.eval(torch.tensor(_grid(-1, 1.5, len(k), 1.7)).to(k.dtype)), copy=True)

    asks = [("spectra", lambda: C.evaluate(pb, spec)), ("spectra on a grid with the same ends", other), ("eddy lifetime", lifetime), ("scales", lambda: np.array(pb.OPS.exp_scales()))]
    if coherence:
        asks.append(("coherence", coher))
    if "TAUNET" in str(pb.prob_params.eddy_lifetime):
        asks.append(("size and norm of the network", lambda: np.array([float(pb.num_trainable_params()), float(pb.eval_trainable_norm().detach())])))
    random.Random(order).shuffle(asks)
    out = {}
    for name, f in asks:
        out[name] = f()
    return {k: out[k] for k in sorted(out)}


def _fresh(spec, par, coherence, d, _ctx=None):
    pb = C.build(spec, d)
    pb.parameters = par
    return _probe(pb, spec, coherence)


def _refit(pb, spec, par):
    pb.parameters = par
    try:
        res = C.run(pb, spec)
    except (ValueError, RuntimeError) as e:
        return ("raised", type(e).__name__)
    return ("ok", C.snapshot(pb), C.evaluate(pb, spec), {k: float(v) for k, v in res.items()}, float(pb.loss))


def _fresh_refit(spec, par, d, ctx):
    seams.install_writer(ctx, "eager")
    return _refit(C.build(spec, d), spec, par)


def _points(spec, par, d, ctx):
    seams.install_writer(ctx, "eager")
    pb = C.build(spec, d)
    pb.parameters = par
    with seams.Interruptor() as it:
        try:
            C.run(pb, spec)
        except (ValueError, RuntimeError):
            pass
    return it.n


def _near(a, b, tol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    ok = np.isfinite(b)
    return bool(np.max(np.abs(a[ok] - b[ok]), initial=0) <= tol * max(1e-30, np.max(np.abs(b[ok]), initial=0)))


def _count(fn):
    with seams.Interruptor() as it:
        try:
            fn()
        except Exception:  # noqa: BLE001
            pass
    return it.n


def execute(plan, ctx):
    import torch

    spec = plan["spec"]
    logs = ctx.dir("logs")
    C.build(spec)  # fixes the default precision
    npar = len(C.build(spec).parameters)
    w0 = C.weights(spec, npar, plan["salt"])
    ref_fit = seams.in_fork(_fresh_refit, spec, w0, ctx.dir("ref-logs"), ctx) if plan["refit"] else None
    npts = seams.in_fork(_points, spec, w0, ctx.dir("ref-logs"), ctx) if any(o["op"] == "hit" for o in plan["ops"]) else 0
    cohfile = None
    if spec["coh"]:
        cohfile = os.path.join(ctx.scratch, "coh.dat")
        C.write_coherence(cohfile, C.coherence_rows(spec["coh"]))
    seams.install_writer(ctx, "eager")
    pb = C.build(spec, logs, ctx.dir("out"))
    C.start(pb, spec, 0)
    handed = []
    ctx.event(spec["kind"], spec["ncomp"], "spectrum" if spec["spectrum"] else "")
    for step, o in enumerate(plan["ops"]):
        op = o["op"]
        before = C.snapshot(pb)
        outcome = "ok"
        changes = False
        if op == "set":
            C.start(pb, spec, o["salt"])
            want = C.weights(spec, npar, o["salt"])
            if not np.array_equal(C.snapshot(pb), want):
                raise Violation("parameters-lost", f"step {step}: parameters read back differ from those set")
            changes = True
            p = pb.parameters
            handed.append((step, p, np.array(p, copy=True)))
        elif op == "eval":
            k = torch.tensor(_grid(o["lo"], 1, o["n"], o.get("warp", 1))).to(C.k1_data(spec).dtype)
            kk = k.clone()
            out = pb.eval(k)
            if not torch.equal(k, kk):
                raise Violation("input-modified", f"step {step}: evaluating changed the caller's wavenumbers")
            handed.append((step, out, out.copy()))
        elif op in ("calib", "calibcoh", "bad"):
            d = C.data(dict(spec, k1=o.get("k1") or spec["k1"]))
            d["ops"] *= o.get("scale", 1.0)
            if op == "bad":
                d["ops"][0, 0, 0] = float("nan")
                ctx.fault("bad-data")
            try:
                C.run(pb, spec, cohfile if op == "calibcoh" else None, d)
            except (ValueError, RuntimeError) as e:
                outcome = type(e).__name__
            changes = True
        elif op == "hit":
            exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}[o["exc"]]
            it = seams.Interruptor(int(o["frac"] * npts), exc)
            try:
                with it:
                    C.run(pb, spec)
            except exc:
                outcome = f"{o['exc']}@{it.fired}"
                ctx.fault(o["exc"])
            except (ValueError, RuntimeError) as e:
                outcome = type(e).__name__
            ctx.schedule_points += it.n
            changes = True
        elif op == "hiteval":  # an evaluation, a lifetime or a bad request cut short
            k = C.k1_data(spec)[: 1 + o["n"]]
            asks = {
                "eval": lambda: pb.eval(k),
                "tau": lambda: pb.OPS.EddyLifetime(torch.ones((3, 3), dtype=k.dtype)),
                "shape": lambda: pb.eval(torch.ones((2, 2, 2), dtype=k.dtype)),
                "type": lambda: pb.eval("k1"),
            }
            ask = asks[o["what"]]
            exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}[o["exc"]]
            try:
                it = seams.Interruptor(int(o["frac"] * seams.in_fork(_count, ask)), exc)
                with it:
                    ask()
            except exc:
                outcome = f"{o['exc']}@{it.fired}"
                ctx.fault(o["exc"])
            except Exception as e:  # noqa: BLE001 - a request that makes no sense is refused
                outcome = type(e).__name__
                ctx.fault("bad-request")
        elif op == "tau":
            kk = torch.tensor(np.random.RandomState(o["n"]).uniform(-3, 3, (o["n"], 3))).to(torch.get_default_dtype())
            kk[0] *= 1e-5
            keep = kk.clone()
            with torch.no_grad():
                tau = pb.OPS.EddyLifetime(kk).numpy()
            if not torch.equal(kk, keep):
                raise Violation("input-modified", f"step {step}: asking for eddy lifetimes changed the caller's wavevectors")
            handed.append((step, tau, tau.copy()))
        elif op == "phi":
            # the spectral tensor of the last evaluation, asked for repeatedly
            C.evaluate(pb, spec)
            with torch.no_grad():
                asked = [torch.stack([p.clone() for p in pb.OPS.PowerSpectra()]).numpy() for _ in range(3)]
            for a in asked[1:]:
                if not _near(a, asked[0]):
                    raise Violation("history-matters", f"step {step}: asking for the spectral tensor again gives another answer")
        elif op == "scribble":
            a = pb.parameters
            a[...] = 0.123
        elif op == "save":
            pb.save_model(ctx.dir("out"))
        elif op == "coherence":
            k, r = C.k1_data(spec)[: o["n"]].clone(), _seps(spec).to(torch.get_default_dtype())
            keep = k.clone(), r.clone()
            with torch.no_grad():
                co = pb.OPS.SpectralCoherence(k, r).numpy()
            if not (torch.equal(k, keep[0]) and torch.equal(r, keep[1])):
                raise Violation("input-modified", f"step {step}: evaluating the coherence changed the caller's arrays")
            handed.append((step, co, co.copy()))
        ctx.event(op, outcome)
        par = C.snapshot(pb)
        if not changes and par.tobytes() != before.tobytes():
            raise Violation("parameters-changed", f"step {step} ({op}) changed the model's parameters")
        if not np.all(np.isfinite(par)):
            ctx.event("non-finite parameters after", op)
            C.start(pb, spec, 1)
            par = C.snapshot(pb)
        last = step == len(plan["ops"]) - 1
        coh = bool(spec["coh"]) and (last or op == "coherence")
        if plan.get("world") is None:
            want = seams.in_fork(_fresh, spec, par, coh, logs)
        else:  # a process that has seen nothing of this history
            want = zygote.call(plan["world"], "c08", "_fresh", spec, par, coh, logs)
        got = _probe(pb, spec, coh, plan.get("ask", 0) + step)
        for k in want:
            if not _near(got[k], want[k]):
                raise Violation("history-matters", f"after step {step} ({op}, {outcome}): {k} differ from a fresh model with the same parameters")
        if C.snapshot(pb).tobytes() != par.tobytes():
            raise Violation("parameters-changed", f"evaluating after step {step} changed the parameters")
        for s, a, b in handed:
            if a.tobytes() != b.tobytes():
                raise Violation("result-mutated", f"values returned at step {s} changed during step {step} ({op})")
        ctx.probe(op)
    if plan["refit"]:
        got = _refit(pb, spec, w0)

        def shaky(same):
            bad = C.shaky(lambda v: _fresh_refit(spec, v, ctx.dir("ref-logs"), ctx), w0, same)
            ctx.probe("ill-conditioned" if bad else "well-conditioned-difference")
            return bad

        c07._judge(got, ref_fit, "calibrating again from the same starting point after this history", shaky)
        ctx.event("refit", got[0])
