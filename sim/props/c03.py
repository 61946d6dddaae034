"""C03: a call that fails part-way leaves whole blocks behind and can be continued."""

import warnings

import numpy as np

from .. import fields as F
from .. import seams
from ..core import Violation
from . import c01, c02

ID = "C03"
RUNS = {"quick": 1200, "thorough": 15000}
LEVEL = "exploration"
RULE = "one run = one seeded history of generate calls in which some calls are hit by an interrupt, an allocation failure, an FFT failure, a warning turned into an error or bad arguments at a seeded point; distinct = distinct event logs (which include where the fault landed)"
REAL = ["FluctuationFieldGenerator", "LowFreqGenerator", "covariance kernels", "sampling"]
STUB = ["FFTW planner choice"]
ASSUMPTIONS = ["interrupts arrive where CPython 3.12 runs signal handlers: function entry, after a call returns, backward jumps"]
MIN_LEN = {"calls": 1}


def gen(rng, tier, idx):
    spec = F.rng_spec(rng, two_d=0.35, big=tier == "thorough", drd=0.12)
    if spec["cfg2d"] and rng.chance(0.4):  # box wider than the 2D domain: a warning inside the block loop
        spec["cfg2d"]["L_2d"] = round(spec["dims"][1] * rng.uniform(0.2, 0.45), 1)
        spec["cfg2d"]["z_i"] = round(spec["cfg2d"]["L_2d"] * 0.5, 1)
    profs = F.profiles(rng, rng.randrange(1, 3))
    calls = []
    for _ in range(rng.randrange(2, 6)):
        fault = None
        if rng.chance(0.6):
            kind = rng.pick(["interrupt", "interrupt", "interrupt", "memory", "fft", "invalid", "warning", "systemexit"])
            fault = {"kind": kind, "frac": rng.random(), "n": rng.randrange(0, 8)}
        calls.append({"n": rng.pick([1, 1, 2, 2, 3]), "p": rng.randrange(len(profs)), "fault": fault})
    return {"spec": spec, "profs": profs, "calls": calls, "ctor": {"frac": rng.random(), "kind": rng.pick(["interrupt", "memory"])} if rng.chance(0.2) else None}


def warm():
    F.warm()


BAD = [
    {"windprofiletype": "CONST"}, {"uref": -3.0}, {"zref": 0.0}, {"z0": 0.0}, {"windprofiletype": "PL", "plexp": None},
    {"n": "2"}, {"uref": "fast"}, {"z0": -0.1},
]


def _count(spec, calls, profs, ctx):
    """Interrupt points per call in an undisturbed history."""
    seams.FFTSeam(ctx).install()
    g = F.build(spec)
    counts = []
    for c in calls:
        with seams.Interruptor() as it:
            F.gen(g, c["n"], profs[c["p"]])
        counts.append(it.n)
    return counts


def _count_ctor(spec, ctx):
    seams.FFTSeam(ctx).install()
    with seams.Interruptor() as it:
        F.build(spec)
    return it.n


EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "systemexit": SystemExit}


def execute(plan, ctx):
    spec, profs, calls = plan["spec"], plan["profs"], plan["calls"]
    total = sum(c["n"] for c in calls) + 1
    ref = seams.in_fork(c02.reference, spec, profs, total, ctx)
    counts = seams.in_fork(_count, spec, calls, profs, ctx)
    nx, ny, nz = (2**lv + 1 for lv in spec["levels"])
    fft = seams.FFTSeam(ctx).install()
    if plan["ctor"]:
        n = seams.in_fork(_count_ctor, spec, ctx)
        it = seams.Interruptor(int(plan["ctor"]["frac"] * n), EXC[plan["ctor"]["kind"]])
        try:
            with it:
                F.build(spec)
        except (KeyboardInterrupt, MemoryError):
            ctx.fault("construction-interrupted")
    g = F.build(spec)
    owner: list[int] = []
    returned = []
    for step, c in enumerate(calls):
        f = c["fault"]
        before = g.total_fluctuation.copy()
        rows0 = before.shape[0]
        outcome = "ok"
        prof = profs[c["p"]]
        if f is None:
            returned.append(_ret(F.gen(g, c["n"], prof)))
        elif f["kind"] in EXC:
            it = seams.Interruptor(int(f["frac"] * counts[step]), EXC[f["kind"]])
            try:
                with it:
                    F.gen(g, c["n"], prof)
            except EXC[f["kind"]]:
                outcome = f"{f['kind']}@{it.fired}"
                ctx.fault(f["kind"])
            ctx.schedule_points += it.n
        elif f["kind"] == "fft":
            fft.execs, fft.fail_at, fft.fail_exc = 0, f["n"], (MemoryError if f["n"] % 2 else RuntimeError)
            try:
                F.gen(g, c["n"], prof)
            except (MemoryError, RuntimeError):
                outcome = "fft"
            fft.fail_at = None
        elif f["kind"] == "warning":
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                try:
                    g.generate(c["n"], prof["zref"], prof["uref"], prof["z0"], prof["windprofiletype"], prof["plexp"])
                except Warning:
                    outcome = "warning"
                    ctx.fault("warning-as-error")
        else:
            bad = BAD[f["n"] % len(BAD)]
            args = dict(prof, **{k: v for k, v in bad.items() if k != "n"})
            try:
                F.gen(g, bad.get("n", c["n"]), args)
                outcome = "accepted"
            except (ValueError, TypeError, AssertionError) as e:
                outcome = f"invalid-{type(e).__name__}"
                ctx.fault("invalid-arguments")
            if outcome == "accepted":
                raise Violation("bad-arguments-accepted", f"call {step} with {bad} did not fail")
        now = g.total_fluctuation
        ctx.event("call", step, c["n"], outcome)
        rows = now.shape[0]
        if now.shape[1:] != (ny, nz, 3) or rows % nx or not rows0 <= rows <= rows0 + c["n"] * nx:
            raise Violation("partial-block", f"call {step} ({outcome}) left a field of shape {now.shape} (was {rows0} planes, block is {nx})")
        if outcome == "ok" and rows != rows0 + c["n"] * nx:
            raise Violation("partial-block", f"call {step} returned normally with {rows - rows0} new planes instead of {c['n'] * nx}")
        if not F.same_bits(np.ascontiguousarray(now[:rows0]), before):
            raise Violation("history-rewritten", f"call {step} ({outcome}) changed existing rows")
        for a, snap in returned:
            if not F.same_bits(a, snap):
                raise Violation("returned-array-mutated", f"call {step} ({outcome}) changed an array returned earlier")
        owner += [c["p"]] * ((rows - rows0) // nx)
    # faults are over: the field must continue from exactly where it stands
    last = F.gen(g, 1, profs[0])
    owner.append(0)
    if last.shape[0] != len(owner) * nx:
        raise Violation("partial-block", f"after recovery the field has {last.shape[0]} planes, expected {len(owner) * nx}")
    for b, p in enumerate(owner):
        got, want = last[b * nx : (b + 1) * nx], ref[p][b * nx : (b + 1) * nx]
        if not F.close(got, want, 1e-6):
            raise Violation("continuation-broken", f"block {b} of {len(owner)} differs from an undisturbed history: {F.gap(got, want)}")
    ctx.probe("blocks", len(owner))


def _ret(a):
    return a, a.copy()


del c01
