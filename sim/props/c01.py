"""C01: the seed alone decides the field."""

import os

import numpy as np

from .. import fields as F
from .. import seams, zygote
from ..core import Violation

ID = "C01"
WORLDS = True
RUNS = {"quick": 900, "thorough": 12000}
LEVEL = "exploration"
RULE = (
    "one run = one generator configuration and call sequence executed twice: in a pristine process, and under a seeded "
    "environment (other FFT engine/plan/threads, garbage in uninitialised memory, jumping clock, other generators and other "
    "users of the global random streams before and between the calls); distinct = distinct event logs"
)
REAL = ["FluctuationFieldGenerator", "LowFreqGenerator (numba kernel)", "covariance kernels", "sampling", "numpy RandomState/Generator"]
STUB = ["FFTW planner choice (deterministic plan or scipy/numpy engine)", "clock", "contents of uninitialised memory"]
ASSUMPTIONS = [
    "single-precision FFTs of different engines agree to 3e-4 of the field's magnitude",
    "two different integer seeds whose fluctuations agree to 0.1 % are treated as not having used the seed",
]


def gen(rng, tier, idx):
    big = tier == "thorough"
    spec = F.rng_spec(rng, two_d=0.4, big=big, drd=0.12)
    calls = [{"n": rng.randrange(1, 4), "prof": p} for p in F.profiles(rng, rng.randrange(1, 4))]
    return {
        "spec": spec,
        "calls": calls,
        "engine": rng.pick(["estimate", "scipy", "numpy"]),
        "threads": rng.pick([1, 1, 2, 3, 4]),
        "dirty": rng.getrandbits(31) if rng.chance(0.7) else None,
        "clock": {"seed": rng.getrandbits(31), "jump_p": rng.pick([0.0, 0.2, 0.7]), "start": rng.pick([0.0, 1.7e9, 4e9])},
        "stir": rng.getrandbits(31),
        "others": [{"spec": twist(rng, spec) if rng.chance(0.6) else F.rng_spec(rng, two_d=0.3), "at": rng.randrange(0, len(calls) + 1)} for _ in range(rng.randrange(0, 3))],
        "unseeded": rng.chance(0.25),
        "apart": apart(rng),
        "world": rng.pick([None, 0, 1]),
        "cpus": rng.pick([1, 2, 3, 8, 64]),
        "seedtype": rng.pick(["int", "int", "int64", "uint32"]),
    }


def apart(rng):
    """How far away the other seed is: distances that a truncated, folded or scaled seed would not see."""
    k = rng.randrange(5)
    if k <= 1:
        return 1 << rng.randrange(32)
    if k == 2:
        return 10 ** rng.randrange(1, 10)
    if k == 3:
        return rng.pick([255, 257, 4095, 65535, 65537, 99999, 2**31 - 1, 360360, 720720, 720720 * 1000])
    return rng.randrange(1, 2**20)


def twist(rng, spec):
    """A neighbour of spec: same grid, something else different."""
    s = dict(spec)
    k = rng.randrange(10)
    if k == 0:
        s["seed"] = rng.getrandbits(32)
    elif k == 1:
        s["model"] = "VK" if s["model"] == "Mann" else "Mann"
    elif k == 2:
        s["S"] = round(s["S"] * 1.7, 3)
    elif k == 3:
        s["T"] = round(s["T"] * 0.8, 4)
    elif k == 5:
        s["cfg2d"] = F.cfg2d_twist(rng, s["cfg2d"]) if s["cfg2d"] else F.cfg2d(rng)
    elif k == 6:
        i = rng.randrange(3)
        s["dims"] = [round(x * 1.07, 3) if j == i else x for j, x in enumerate(s["dims"])]
    elif k == 7:
        s["ustar"], s["href"] = round(s["ustar"] * 1.3, 3), round(s["href"] * 0.9, 3)
    elif k == 8:
        s["L"] = round(s["L"] * rng.uniform(0.7, 0.99), 4)
    elif k == 4:
        s["cfg2d"] = None if s["cfg2d"] else F.cfg2d(rng)
    else:
        s["blend"] = (s["blend"] + 1) % 5
    return s


def warm():
    F.warm()


def _plain(spec, calls, ctx, seed="spec"):
    seams.FFTSeam(ctx).install()
    g = F.build(spec, seed)
    out = [F.gen(g, c["n"], c["prof"]).copy() for c in calls]
    return out[-1]


def _same(a, b):
    """Do two fields coincide once the mean profile is taken out?  (The boxes are tiny, so a correlation near one between
    two independent realisations is possible; agreement to a thousandth of the fluctuations is not.)"""
    a, b = a - a.mean(axis=(0, 1), keepdims=True), b - b.mean(axis=(0, 1), keepdims=True)
    return bool(np.linalg.norm(a - b) <= 1e-3 * max(np.linalg.norm(a), np.linalg.norm(b)))


def execute(plan, ctx):
    spec, calls = plan["spec"], plan["calls"]
    if plan.get("world") is None:
        ref = seams.in_fork(_plain, spec, calls, ctx)
    else:
        ref = zygote.call(plan["world"], "c01", "_plain", spec, calls)
        ctx.fault("other-interpreter")
    ctx.event("spec", spec["model"], spec["levels"], "blend", spec["blend"], "2d", bool(spec["cfg2d"]), [c["n"] for c in calls])

    seams.FFTSeam(ctx, engine=plan["engine"], threads=plan["threads"]).install()
    ctx.fault(f"fft-engine-{plan['engine']}-t{plan['threads']}")
    os.environ["OMP_NUM_THREADS"] = str(plan["threads"])
    seams.machine(ctx, plan.get("cpus", 1), plan["stir"])
    if plan["dirty"] is not None:
        seams.dirty_memory(ctx, plan["dirty"])
    seams.Clock(ctx, **plan["clock"]).install()
    with seams.global_noise(plan["stir"]) as stir:
        stir()
        keep = []

        def neighbours(i):
            for o in plan["others"]:
                if o["at"] == i:
                    h = F.build(o["spec"])
                    F.gen(h, 1, calls[0]["prof"])
                    keep.append(h)
                    ctx.fault("neighbour-generator")

        neighbours(0)
        g = F.build(spec, {"int": int, "int64": np.int64, "uint32": np.uint32}[plan.get("seedtype", "int")](spec["seed"]))
        for i, c in enumerate(calls):
            stir()
            ctx.fault("global-rng-use")
            if i:
                neighbours(i)
            got = F.gen(g, c["n"], c["prof"])
            for h in keep:
                F.gen(h, 1, c["prof"])
        if not F.close(got, ref):
            raise Violation("not-reproducible", f"same seed, other environment: {F.gap(got, ref)}")
        stir()
        again = F.build(spec)
        for c in calls:
            out2 = F.gen(again, c["n"], c["prof"])
        if not F.close(out2, ref):
            raise Violation("not-reproducible", f"second instance with the same seed: {F.gap(out2, ref)}")
        ctx.event("same-seed", "agree")

        # another seed must give another realisation, also when the two seeds differ in a single bit
        d = plan.get("apart", 1)
        other = spec["seed"] ^ d if d & (d - 1) == 0 else spec["seed"] + d if spec["seed"] + d < 2**32 else spec["seed"] - d
        alt = F.build(spec, other)
        for c in calls:
            out3 = F.gen(alt, c["n"], c["prof"])
        same = _same(out3, ref)
        ctx.event("other-seed", "same" if same else "differs")
        if same:
            raise Violation("seed-ignored", f"seeds {spec['seed']} and {other} give the same fluctuations")
        if spec["cfg2d"]:
            _two_d(spec, other, calls, ref, out3, ctx)
        if plan["unseeded"]:
            # a seeded generator built just before must not put the unseeded one at a fixed place
            a = (F.build(spec), F.build(spec, None))[1]
            b = (F.build(spec), F.build(spec, None))[1]
            for c in calls:
                x, y = F.gen(a, c["n"], c["prof"]), F.gen(b, c["n"], c["prof"])
            if _same(x, y):
                raise Violation("unseeded-repeats", "two generators without a seed produced the same field")
            if spec["cfg2d"]:
                _unseeded_2d(spec, ctx)
            ctx.event("unseeded", "differ")


def _unseeded_2d(spec, ctx):
    """Two unseeded large-scale generators, each made just after a seeded field generator."""
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    out = []
    for _ in range(2):
        F.build(spec)
        out.append(np.array(LowFreqGenerator(dict(spec["cfg2d"])).generate()[0]))
    if np.linalg.norm(out[0] - out[1]) <= 1e-3 * np.linalg.norm(out[0]):
        raise Violation("unseeded-repeats", "two large-scale generators without a seed produced the same field")


def _two_d(spec, other, calls, ref, out3, ctx):
    """The large-scale part alone: subtract the box generated without it."""
    flat = dict(spec, cfg2d=None)
    parts = []
    for s, full in ((spec["seed"], ref), (other, out3)):
        h = F.build(flat, s)
        for c in calls:
            base = F.gen(h, c["n"], c["prof"])
        parts.append(full - base)
    big = max(F.scale(parts[0][..., :2]), F.scale(parts[1][..., :2]))
    if big > 1e-2 * F.scale(ref) and F.close(parts[0], parts[1], 1e-2):
        raise Violation("seed-ignored", "the large-scale component is the same for two seeds")
    ctx.event("2d-part", "differs" if big > 1e-2 * F.scale(ref) else "small")
