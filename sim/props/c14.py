"""C14: every large-scale 2D realisation is a divergence-free field of the configured energy, both components from one realisation."""

import math
import warnings

import numpy as np

from .. import fields as F
from .. import loops
from .. import seams
from ..core import Violation

ID = "C14"
RUNS = {"quick": 800, "thorough": 25000}
LEVEL = "exploration"
RULE = (
    "one run = one seeded configuration and history of regenerate, interpolate and spectrum calls on one 2D generator, the parallel loops' iterations executed in "
    "seeded orders, interleaved statement by statement on simulated threads, or compiled, regenerations hit by an interrupt, allocation failure or failing transform at a seeded point; each realisation is decomposed into "
    "Fourier modes and compared with the documented spectrum; distinct = distinct event logs"
)
REAL = ["LowFreqGenerator", "numpy FFT", "scipy interpolation", "numba-compiled loops (when not replaced by their Python source)"]
STUB = ["order and interleaving of parallel loop iterations", "contents of uninitialised memory", "other users of the global random stream"]
ASSUMPTIONS = ["modes at the Nyquist wavenumber are not constrained", "white noise modes lie within 1e-12 to 60 times their mean energy, and their mean within ten standard errors"]
MIN_LEN = {"ops": 1}


def gen(rng, tier, idx):
    cfg = F.cfg2d(rng)
    cfg["L_2d"] = round(10 ** rng.uniform(1.5, 4.3), 2)
    cfg["z_i"] = round(cfg["L_2d"] * 10 ** rng.uniform(-2, 0.5), 3)
    cfg["psi"] = round(rng.uniform(0.02, 1.55), 4)
    f1, f2 = rng.pick([0.5, 1, 1, 2, 4, 7]), rng.pick([0.25, 1, 1, 2, 6])
    e1, e2 = rng.randrange(2, 7), rng.randrange(2, 6)
    while max(f1, 5) / min(f1 / 2**e1, f2 / 2**e2) > 130 or max(f2, 5) / min(f1 / 2**e1, f2 / 2**e2) > 130:
        if f1 / 2**e1 < f2 / 2**e2:
            e1 -= 1
        else:
            e2 -= 1
    cfg.update(L1_factor=f1, L2_factor=f2, exp1=max(1, e1), exp2=max(1, e2))
    ops = [{"op": "gen"}]
    if rng.chance(0.12):  # estimates with one or two regenerations in between
        for _ in range(rng.randrange(2, 5)):
            ops += [{"op": "spectrum"}] + [{"op": "gen"}] * rng.pick([1, 2, 2, 3])
        ops.append({"op": "spectrum"})
    for _ in range(rng.randrange(0, 5)):
        k = rng.randrange(10)
        if k < 3:
            ops.append({"op": "gen"})
        elif k < 6:
            ops.append({"op": "hit", "frac": rng.random(), "exc": rng.pick(["interrupt", "memory", "fft", "fft"])})
        elif k < 7:
            ops.append({"op": "neighbour", "cfg": F.cfg2d_twist(rng, cfg), "gen": rng.chance(0.7)})
        elif k < 8:
            ops.append({"op": "interp", "seed": rng.getrandbits(31), "nx": rng.randrange(1, 9), "ny": rng.randrange(1, 9), "out": rng.chance(0.3)})
        else:
            ops.append({"op": "spectrum"})
        if rng.chance(0.12):
            ops.append({"op": "analytic", "k": [round(rng.uniform(-2, 1.7), 3) for _ in range(rng.randrange(1, 4))], "lim": rng.pick([None, None, 5.0, 1.0, 20.0]), "zero": rng.chance(0.2)})
    return {
        "cfg": cfg,
        "ops": ops,
        "py": rng.chance(0.4),
        "inter": rng.chance(0.6),
        "oseed": rng.getrandbits(31),
        "dirty": rng.getrandbits(31) if rng.chance(0.6) else None,
        "nseed": rng.getrandbits(31),
        "stir": rng.chance(0.3),
        "before": F.cfg2d_twist(rng, cfg) if rng.chance(0.3) else None,
    }


def warm():
    F.warm()
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = LowFreqGenerator({"sigma2": 1.0, "L_2d": 500.0, "psi": 0.7, "z_i": 300.0, "L1_factor": 1, "L2_factor": 1, "exp1": 3, "exp2": 3})
    g.generate()
    g.compute_spectrum()


def _build(cfg):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return LowFreqGenerator(dict(cfg))


def _scale(cfg):
    """The factor of the spectrum that gives the configured variance."""
    from scipy import integrate

    L, zi = cfg["L_2d"], cfg["z_i"]
    # substitute kappa = t / L to integrate well-scaled numbers
    val = integrate.quad(lambda t: t**3 / (1 + t * t) ** (7 / 3) / (1 + (t * zi / L) ** 2), 0, np.inf, limit=400)[0] * L ** (-4 + 14 / 3)
    return cfg["sigma2"] / (2 * val)


class Model:
    """Amplitude of every Fourier mode, from the documented spectrum."""

    def __init__(self, cfg, shape):
        L, zi, psi = cfg["L_2d"], cfg["z_i"], cfg["psi"]
        c = _scale(cfg)
        d = min(cfg["L1_factor"] * L / 2 ** cfg["exp1"], cfg["L2_factor"] * L / 2 ** cfg["exp2"])
        self.N = shape
        self.k1, self.k2 = np.meshgrid(2 * np.pi * np.fft.fftfreq(shape[0], d), 2 * np.pi * np.fft.fftfreq(shape[1], d), indexing="ij")
        k = np.sqrt(self.k1**2 + self.k2**2)
        kap = np.sqrt(2 * ((self.k1 * math.cos(psi)) ** 2 + (self.k2 * math.sin(psi)) ** 2))
        with np.errstate(all="ignore"):
            E = c * kap**3 / (L**-2 + kap**2) ** (7 / 3) / (1 + kap**2 * zi**2)
            self.A = np.where(k > 0, np.sqrt(E / (np.pi * k**3)), 0.0) * 2 * np.pi / d
        self.ok = np.ones(shape, bool)
        self.ok[0, 0] = False
        for i in range(2):
            if shape[i] % 2 == 0:
                self.ok[(slice(None),) * i + (shape[i] // 2,)] = False
        self.d = d

    def noise(self, u1, u2, where):
        """The white noise behind a realisation; complains if there is none."""
        f1, f2 = np.fft.fft2(u1), np.fft.fft2(u2)
        floor = 1e-8 * np.max(self.A * np.maximum(abs(self.k1), abs(self.k2)))
        m1 = self.ok & (abs(self.A * self.k2) > floor)
        m2 = self.ok & (abs(self.A * self.k1) > floor)
        n = np.full(self.N, np.nan, complex)
        n[m2] = f2[m2] / (-1j * self.A[m2] * self.k1[m2])
        both = m1 & m2
        n1 = f1[m1] / (1j * self.A[m1] * self.k2[m1])
        a = np.full(self.N, np.nan, complex)
        a[m1] = n1
        N = u1.size
        if np.any(both):
            e = np.max(np.abs(a[both] - n[both])) / math.sqrt(N)
            if e > 1e-5:
                raise Violation("not-solenoidal", f"{where}: the two components do not come from one stream function (mode mismatch {e:.3g})")
        n = np.where(np.isnan(n), a, n)
        p = np.abs(n[m1 | m2]) ** 2 / N
        if p.size:
            if np.max(p) > 60 or np.min(p) < 1e-12:
                raise Violation("wrong-spectrum", f"{where}: mode energies between {np.min(p):.3g} and {np.max(p):.3g} of the documented spectrum")
            if p.size >= 16 and abs(np.mean(p) - 1) > 10 * math.sqrt(2 / p.size):
                raise Violation("wrong-variance", f"{where}: mean mode energy is {np.mean(p):.4g} of the documented spectrum ({p.size} modes)")
            # energy at large, middle and small scales separately
            kk = np.hypot(self.k1, self.k2)[m1 | m2]
            order = np.argsort(kk)
            for part in np.array_split(order, 4):
                if part.size >= 64 and abs(np.mean(p[part]) - 1) > 10 * math.sqrt(2 / part.size):
                    raise Violation("wrong-spectrum", f"{where}: modes around k={np.median(kk[part]):.3g} hold {np.mean(p[part]):.4g} of the documented energy")
        # no energy in the mean
        for name, f in (("u1", f1), ("u2", f2)):
            if abs(f[0, 0]) > 1e-6 * max(1e-30, np.max(np.abs(f))):
                raise Violation("mean-not-zero", f"{where}: {name} has mean {f[0, 0].real / N:.3g}")
        return n


def _crop(full, shape):
    a, b = (full.shape[0] - shape[0]) // 2, (full.shape[1] - shape[1]) // 2
    return full[a : a + shape[0], b : b + shape[1]]


def _counted(cfg, nseed):
    np.random.seed(nseed)
    g = _build(cfg)
    g.generate()
    with seams.Interruptor() as it:
        g.generate()
    return it.n


def _ref_first(cfg, nseed):
    np.random.seed(nseed)
    return tuple(np.array(x) for x in _build(cfg).generate())


def execute(plan, ctx):
    cfg = plan["cfg"]
    shape = (2 ** cfg["exp1"], 2 ** cfg["exp2"])
    ref = seams.in_fork(_ref_first, cfg, plan["nseed"])
    pts = seams.in_fork(_counted, cfg, plan["nseed"]) if any(o["op"] == "hit" for o in plan["ops"]) else 0
    if plan["py"]:
        from drdmannturb.fluctuation_generation.low_frequency import fluctuation_field_generator as mod

        ctx.event("python loops", loops.install(ctx, mod, [mod.LowFreqGenerator], plan["oseed"], plan.get("inter")))
    if plan["dirty"] is not None:
        seams.dirty_memory(ctx, plan["dirty"])
    if plan.get("before"):
        _build(plan["before"]).generate()
        ctx.fault("neighbour-generator")
    np.random.seed(plan["nseed"])
    g = _build(cfg)
    model = None
    last = None
    prev = None
    first = True
    ctx.event(cfg["exp1"], cfg["exp2"], cfg["L1_factor"], cfg["L2_factor"])
    with seams.global_noise(plan["nseed"]) as stir:
        for step, o in enumerate(plan["ops"]):
            if o["op"] == "neighbour":
                other = _build(o["cfg"])
                if o["gen"]:
                    other.generate()
                ctx.fault("neighbour-generator")
                ctx.event("neighbour")
                continue
            if o["op"] == "gen" or (o["op"] == "hit" and last is None):
                u1, u2 = g.generate()
                where = f"step {step}"
                if first and not (F.close(np.asarray(u1), ref[0], 1e-7) and F.close(np.asarray(u2), ref[1], 1e-7)):
                    raise Violation("order-matters", f"{where}: same random stream, other loop order: {F.gap(np.asarray(u1), ref[0])}")
                first = False
                if model is None:
                    model = Model(cfg, g.u1_full.shape)
                    if min(model.N[0] * model.d - 5 * cfg["L_2d"], model.N[1] * model.d - 5 * cfg["L_2d"]) < -1e-6 * cfg["L_2d"]:
                        raise Violation("domain-too-small", f"computational domain {model.N} x {model.d} for L={cfg['L_2d']}")
                n = model.noise(np.asarray(g.u1_full), np.asarray(g.u2_full), where)
                for a, full, name in ((u1, g.u1_full, "u1"), (u2, g.u2_full, "u2"), (g.u1, g.u1_full, "u1"), (g.u2, g.u2_full, "u2")):
                    if np.shape(a) != shape:
                        raise Violation("wrong-shape", f"{where}: {name} has shape {np.shape(a)}, requested {shape}")
                    if not np.array_equal(a, _crop(full, shape)):
                        raise Violation("wrong-crop", f"{where}: {name} is not the central part of the computed field")
                if prev is not None:
                    both = np.isfinite(n) & np.isfinite(prev)
                    m = int(both.sum())
                    if m >= 16:
                        cor = abs(np.vdot(n[both], prev[both])) / math.sqrt(np.vdot(n[both], n[both]).real * np.vdot(prev[both], prev[both]).real)
                        if cor > 10 * math.sqrt(2 / m) and cor > 0.5:
                            raise Violation("realisation-repeated", f"{where}: correlation {cor:.3f} with the previous realisation")
                prev = n
                last = (np.array(u1), np.array(u2))
                del u1, u2, a, full  # the caller keeps no result: its memory may be used again
                ctx.event("gen", model.N)
            elif o["op"] == "hit":
                before = last
                fired = None
                if o["exc"] == "fft":
                    real = np.fft.ifft2
                    k = [0]
                    target = int(o["frac"] * 2)

                    def bad(*a, **kw):
                        k[0] += 1
                        if k[0] - 1 == target:
                            raise MemoryError("injected")
                        return real(*a, **kw)

                    np.fft.ifft2 = bad
                    try:
                        g.generate()
                    except MemoryError:
                        fired = "fft"
                    finally:
                        np.fft.ifft2 = real
                else:
                    exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}[o["exc"]]
                    it = seams.Interruptor(int(o["frac"] * pts), exc)
                    try:
                        with it:
                            g.generate()
                    except exc:
                        fired = it.fired
                    ctx.schedule_points += it.n
                if fired:
                    ctx.fault(o["exc"])
                now = (np.array(g.u1), np.array(g.u2))
                same = [np.array_equal(a, b) for a, b in zip(now, before)]
                if fired and any(same) and not all(same):
                    raise Violation("mixed-realisations", f"step {step}: after a failed regeneration ({fired}) one component is new and the other is old")
                if fired and not any(same):
                    # complete and new: both are crops of one realisation
                    model.noise(np.asarray(g.u1_full), np.asarray(g.u2_full), f"step {step} after {fired}")
                    if not (np.array_equal(now[0], _crop(g.u1_full, shape)) and np.array_equal(now[1], _crop(g.u2_full, shape))):
                        raise Violation("mixed-realisations", f"step {step}: after a failed regeneration ({fired}) the components are not one realisation")
                if not fired:
                    model.noise(np.asarray(g.u1_full), np.asarray(g.u2_full), f"step {step}")
                last = now
                prev = None
                ctx.event("hit", o["exc"], bool(fired), "kept" if all(same) else "new")
            elif o["op"] == "interp" and last is not None:
                _interp(g, cfg, shape, last, o, step)
                ctx.event("interp", o["nx"], o["ny"])
            elif o["op"] == "spectrum" and last is not None:
                _spectrum(g, cfg, shape, last, step)
                ctx.event("spectrum")
            elif o["op"] == "analytic":
                _analytic(g, cfg, o, step)
                ctx.event("analytic", len(o["k"]))
            if last is not None and not (np.array_equal(g.u1, last[0]) and np.array_equal(g.u2, last[1])):
                raise Violation("field-changed", f"step {step} ({o['op']}) changed the stored field")
            if plan["stir"]:
                stir()
                ctx.fault("global-rng-use")
            ctx.probe(o["op"])


def _analytic(g, cfg, o, step):
    from scipy import integrate

    L, zi, psi, c = cfg["L_2d"], cfg["z_i"], cfg["psi"], _scale(cfg)
    ks = np.array([10**x / L for x in o["k"]] + [0.0] * o["zero"])
    given = ks.tobytes()
    got = g.analytical_spectrum(ks) if o["lim"] is None else g.analytical_spectrum(ks, k2_limit=o["lim"])
    if ks.tobytes() != given:
        raise Violation("argument-changed", f"step {step}: the wavenumbers passed to analytical_spectrum were changed")
    for j, k1 in enumerate(ks):
        if k1 == 0:
            want = (0.0, 0.0)
        else:
            k2 = np.concatenate([[0], np.geomspace(1e-7 * k1, o["lim"] or 5.0, 4001)])
            kap2 = 2 * ((k1 * math.cos(psi)) ** 2 + (k2 * math.sin(psi)) ** 2)
            k = np.hypot(k1, k2)
            E = c * kap2**1.5 / (L**-2 + kap2) ** (7 / 3) / (1 + kap2 * zi**2) / (np.pi * k)
            want = [2 * integrate.simpson(E * (n / k) ** 2, x=k2) for n in (k2, k1)]
        for name, a, b in zip(("F11", "F22"), (got[0][j], got[1][j]), want):
            if not abs(a - b) <= 1e-3 * b + 1e-6:
                raise Violation("wrong-analytical-spectrum", f"step {step}: {name}({k1:.4g}) = {a:.6g}, the configured spectrum gives {b:.6g}")


def _interp(g, cfg, shape, last, o, step):
    from scipy.interpolate import RegularGridInterpolator

    rs = np.random.RandomState(o["seed"] & 0x7FFFFFFF)
    W = (cfg["L1_factor"] * cfg["L_2d"], cfg["L2_factor"] * cfg["L_2d"])
    ax = [np.arange(shape[i]) * W[i] / shape[i] for i in range(2)]
    lo, hi = (-0.3, 1.3) if o["out"] else (0.0, 0.999)
    q = []
    for i, n in ((0, o["nx"]), (1, o["ny"])):
        x = np.sort(rs.uniform(lo, hi, n)) * ax[i][-1]
        q.append(x)
    got = g.interp_slice(q[0], q[1])
    pts = np.stack(np.meshgrid(*q, indexing="ij"), -1)
    for k in range(2):
        want = RegularGridInterpolator(ax, last[k], bounds_error=False, fill_value=0.0)(pts)
        if np.shape(got[k]) != want.shape or np.max(np.abs(got[k] - want)) > 1e-6 * max(1e-30, np.max(np.abs(last[k]))):
            raise Violation("wrong-interpolation", f"step {step}: component {k}: {F.gap(np.asarray(got[k]), want)}")


def _spectrum(g, cfg, shape, last, step):
    k1, f11, f22 = g.compute_spectrum()
    W = cfg["L1_factor"] * cfg["L_2d"]
    dk = 2 * np.pi / W
    for name, f, u in (("F11", f11, last[0]), ("F22", f22, last[1])):
        p = np.sum(np.abs(np.fft.fft2(u)) ** 2, axis=1) * W / (u.size**2 * 2 * np.pi)
        for k, v in zip(k1, f):
            m = int(round(k / dk))
            if m >= shape[0] // 2 or dk < 1e-6:
                continue
            if abs(v - p[m]) > 1e-6 * max(np.max(p), 1e-30):
                raise Violation("wrong-estimate", f"step {step}: {name}({k:.4g}) = {v:.6g}, the field's own spectrum is {p[m]:.6g}")
