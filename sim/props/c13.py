"""C13: the generated field refines an independent model of moving-window generation."""

import numpy as np

from .. import fields as F
from .. import seams
from ..core import Violation
from . import c02

ID = "C13"
RUNS = {"quick": 1800, "thorough": 15000}
LEVEL = "exploration"
RULE = "one run = one seeded configuration and history of generate calls compared block by block with an independent double-precision reference model driven by the same noise stream, under a seeded FFT engine and dirty memory; distinct = distinct event logs"
REAL = ["FluctuationFieldGenerator", "LowFreqGenerator", "covariance kernels", "sampling", "numpy RandomState"]
STUB = ["FFTW planner choice / engine", "contents of uninitialised memory"]
ASSUMPTIONS = [
    "the noise stream is numpy's RandomState(seed).normal, first window then one block at a time, as the seed's documentation says",
    "single-precision FFT error stays below 3e-4 of the block's magnitude",
]
MIN_LEN = {"ops": 1}


def gen(rng, tier, idx):
    p = c02.gen(rng, tier, idx)
    p["engine"] = rng.pick(["estimate", "estimate", "scipy", "numpy"])
    p["threads"] = rng.pick([1, 2, 4])
    p["dirty"] = rng.getrandbits(31)
    return p


def warm():
    F.warm()


def _box_only(spec, plan, ctx):
    """The same history without the large-scale component."""
    seams.FFTSeam(ctx, engine=plan["engine"], threads=plan["threads"]).install()
    g = F.build(dict(spec, cfg2d=None))
    out = np.zeros((0,))
    for o in plan["ops"]:
        if o["op"] == "gen":
            out = F.gen(g, o["n"], plan["profs"][o["p"]])
    return out


def execute(plan, ctx):
    spec, profs = plan["spec"], plan["profs"]
    nx = 2 ** spec["levels"][0] + 1
    ref = F.RefField(spec)
    base = seams.in_fork(_box_only, spec, plan, ctx) if spec["cfg2d"] else None
    seams.FFTSeam(ctx, engine=plan["engine"], threads=plan["threads"]).install()
    seams.dirty_memory(ctx, plan["dirty"])
    g = F.build(spec)
    nblocks = 0
    ctx.event(spec["model"], spec["levels"], "blend", spec["blend"], "nb", ref.nb, "my", ref.my, "mz", ref.mz, "2d", bool(spec["cfg2d"]))
    for o in plan["ops"]:
        if o["op"] == "other":
            F.gen(F.build(o["spec"]), 1, profs[0])
            ctx.fault("neighbour-generator")
        if o["op"] != "gen":
            continue
        prof = profs[o["p"]]
        out = F.gen(g, o["n"], prof)
        ctx.event("gen", o["n"], prof["windprofiletype"])
        for _ in range(o["n"]):
            want = ref.next_block(prof)
            sl = slice(nblocks * nx, (nblocks + 1) * nx)
            got = (base if spec["cfg2d"] else out)[sl]
            if not F.close(got, want):
                raise Violation("model-mismatch", f"block {nblocks} ({spec['model']}, {prof['windprofiletype']}) differs from the reference: {F.gap(got, want)}")
            if spec["cfg2d"]:
                _overlay(spec, nblocks, out[sl] - base[sl], g, out[sl], ctx)
            nblocks += 1
    ctx.probe("blocks", nblocks)


def _overlay(spec, b, diff, g, block, ctx):
    tol = F.TOL * max(F.scale(block), 1.0)
    if F.scale(diff[..., 2]) > tol:
        raise Violation("overlay-vertical", f"block {b}: the large-scale part changes the vertical component")
    if F.scale(diff - diff[:, :, :1, :]) > tol:
        raise Violation("overlay-height", f"block {b}: the large-scale part depends on height")
    lf = g.low_freq_gen
    w1, w2, rim = F.overlay(spec, b, lf.u1, lf.u2, spec["cfg2d"])
    for c, w in ((0, w1), (1, w2)):
        d = np.abs(diff[:, :, 0, c] - w)
        d[rim] = 0.0
        if d.size and d.max() > tol:
            i = np.unravel_index(int(np.argmax(d)), d.shape)
            raise Violation("overlay-misplaced", f"block {b}: large-scale component {c} off by {d.max():.4g} at {tuple(int(x) for x in i)}")
    ctx.probe("overlay-checked")
