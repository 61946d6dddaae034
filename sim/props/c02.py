"""C02: successive calls append; how a field is split into calls does not matter."""

import os

import numpy as np

from .. import fields as F
from .. import seams
from ..core import Violation
from . import c01

ID = "C02"
RUNS = {"quick": 1600, "thorough": 15000}
LEVEL = "exploration"
RULE = "one run = one seeded history of generate calls (block counts incl. 0, changing profiles, 2D overlay), exports, divergence evaluations and work on other generators, checked after every step; distinct = distinct event logs"
REAL = ["FluctuationFieldGenerator", "LowFreqGenerator", "covariance kernels", "sampling", "pyevtk"]
STUB = ["FFTW planner choice"]
ASSUMPTIONS = ["a block is compared with the same block of a single-call history to 1e-6 of its magnitude; stability of rows already returned is bitwise"]
MIN_LEN = {"ops": 1}


def gen(rng, tier, idx):
    spec = F.rng_spec(rng, two_d=0.4, big=tier == "thorough", drd=0.15)
    profs = F.profiles(rng, rng.randrange(1, 4))
    ops = []
    blocks = 0
    long = rng.chance(0.05)  # a long field: state carried over many blocks
    if long:
        spec["levels"][0] = 2
        for _ in range(rng.randrange(4, 12)):
            ops.append({"op": "gen", "n": rng.pick([1, 1, 2, 3, 5]), "p": rng.randrange(len(profs))})
    for _ in range(rng.randrange(2, 9) if not long else 2):
        k = rng.randrange(10)
        if k < 6 and blocks < 9:
            n = rng.pick([0, 1, 1, 1, 2, 2, 3])
            ops.append({"op": "gen", "n": n, "p": rng.randrange(len(profs))})
            blocks += n
        elif k < 7:
            ops.append({"op": "vtk"})
        elif k < 8:
            ops.append({"op": "div"})
        elif k < 9:
            ops.append({"op": "other", "spec": c01.twist(rng, spec)})
        else:
            ops.append({"op": "stir"})
    if not any(o["op"] == "gen" for o in ops):
        ops.append({"op": "gen", "n": 2, "p": 0})
    return {"spec": spec, "profs": profs, "ops": ops, "poison": rng.getrandbits(20)}


def warm():
    F.warm()


def reference(spec, profs, total, ctx):
    """One single-call history per profile."""
    seams.FFTSeam(ctx).install()
    out = []
    for p in profs:
        g = F.build(spec)
        out.append(F.gen(g, total, p).copy() if total else None)
    return out


def execute(plan, ctx):
    spec, profs, ops = plan["spec"], plan["profs"], plan["ops"]
    total = sum(o["n"] for o in ops if o["op"] == "gen")
    ref = seams.in_fork(reference, spec, profs, total, ctx)
    nx, ny, nz = (2**lv + 1 for lv in spec["levels"])
    seams.FFTSeam(ctx).install()
    g = F.build(spec)
    returned = []  # (array object handed out, its bytes then)
    done = 0
    owner = []
    with seams.global_noise(plan["poison"]) as stir:
        for step, o in enumerate(ops):
            before = g.total_fluctuation.copy()
            if o["op"] == "gen":
                out = F.gen(g, o["n"], profs[o["p"]])
                ctx.event("gen", o["n"], o["p"])
                owner += [o["p"]] * o["n"]
                done += o["n"]
                if not isinstance(out, np.ndarray) or not F.same_bits(out, g.total_fluctuation):
                    raise Violation("return-mismatch", f"step {step}: returned array is not the stored field")
                returned.append((out, out.copy()))
            elif o["op"] == "vtk":
                g.save_to_vtk(os.path.join(ctx.scratch, f"f{step}"))
                ctx.event("vtk")
            elif o["op"] == "div":
                g.evaluate_divergence(np.array(spec["dims"]) / np.array([nx, ny, nz])) if before.shape[0] > 1 else None
                ctx.event("div")
            elif o["op"] == "other":
                F.gen(F.build(o["spec"]), 1, profs[0])
                ctx.event("other")
            else:
                stir()
            now = g.total_fluctuation
            if now.shape != (done * nx, ny, nz, 3):
                raise Violation("wrong-extent", f"step {step}: {done} blocks of {nx} planes requested, field is {now.shape}")
            if not F.same_bits(np.ascontiguousarray(now[: before.shape[0]]), before):
                raise Violation("history-rewritten", f"step {step} ({o['op']}) changed rows generated earlier: {F.gap(now[: before.shape[0]], before)}")
            for a, snap in returned:
                if not F.same_bits(a, snap):
                    raise Violation("returned-array-mutated", f"step {step} ({o['op']}) changed an array returned earlier")
            if not np.all(np.isfinite(now)):
                raise Violation("non-finite", f"step {step}: field contains NaN or infinity")
    for b, p in enumerate(owner):
        got, want = now[b * nx : (b + 1) * nx], ref[p][b * nx : (b + 1) * nx]
        if not F.close(got, want, 1e-6):
            raise Violation("chunking-matters", f"block {b} of {len(owner)} differs from the same block of a one-call history: {F.gap(got, want)}")
    ctx.probe("blocks", len(owner))
    if spec["cfg2d"] and len(owner) > 1:
        ctx.probe("2d-multi-block")
