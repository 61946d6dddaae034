"""C23: plots and studies of generated fields show the realisations they are made of."""

import io
import math
import re
import warnings

import numpy as np

from .. import fields as F
from .. import seams
from ..core import Violation

ID = "C23"
RUNS = {"quick": 420, "thorough": 12000}
LEVEL = "exploration"
RULE = (
    "one run = one seeded history on up to two 2D generators and one 3D generator: regenerate, plot, compare spectra, run the averaging and angle studies, append "
    "blocks and draw them, with regenerations, plots and studies cut short by an interrupt, allocation failure or failing transform at a seeded point; every image, curve and "
    "returned average is compared with the recorded realisations; distinct = distinct event logs"
)
REAL = ["LowFreqGenerator", "plot_velocity_fields", "plot_spectra_comparison", "recreate_fig2", "anisotropy_study", "length_AND_grid_size_study", "wind_plot", "matplotlib and plotly figures"]
STUB = ["grid sizes inside length_AND_grid_size_study (scaled down)", "quadrature of the target spectrum (in most runs)", "canvas layout"]
ASSUMPTIONS = ["realisations are taken from the return values of LowFreqGenerator.generate, which C14 judges"]
MIN_LEN = {"ops": 1}


def gen(rng, tier, idx):
    cfgs = []
    for _ in range(rng.pick([1, 2, 2])):
        c = F.cfg2d(rng)
        c["exp1"], c["exp2"] = min(c["exp1"], rng.randrange(2, 6)), min(c["exp2"], rng.randrange(2, 5))
        cfgs.append(c)
    ops = [{"op": "gen", "g": i} for i in range(len(cfgs))]
    heavy = 0
    for _ in range(rng.randrange(1, 8)):
        g = rng.randrange(len(cfgs))
        k = rng.randrange(24)
        hit = {"frac": rng.random(), "exc": rng.pick(["interrupt", "memory", "fft"])} if rng.chance(0.2) else None
        if k < 5:
            ops.append({"op": "gen", "g": g, "hit": hit if rng.chance(0.7) else None})
        elif k < 10:
            ops.append({"op": "fields", "g": g, "hit": hit})
        elif k < 13:
            ops.append({"op": "spectra", "g": g, "hit": hit})
        elif k < 16 and heavy < 2:
            heavy += 1
            ops.append({"op": "fig2", "a": g, "b": rng.randrange(len(cfgs)), "n": rng.randrange(1, 5), "hit": hit})
        elif k < 19 and heavy < 2:
            heavy += 1
            a = [rng.pick([10, 20, 30, 40.0, 45, 50, 60, 70.5, 80]) for _ in range(rng.randrange(1, 5))]
            if rng.chance(0.25):
                a.append(a[0] + 0.25)
            ops.append({"op": "angles", "cfg": g, "psi": a, "n": rng.randrange(1, 4), "plot": rng.chance(0.85), "hit": hit})
        elif k < 20 and heavy < 1:
            heavy += 2
            ops.append({"op": "sizes", "cfg": g, "n": rng.randrange(1, 3), "cut": rng.pick([6, 6, 7, 5])})
        elif k < 22:
            ops.append({"op": "gen3", "n": rng.pick([1, 1, 2])})
        else:
            ops.append({"op": rng.pick(["comp", "mag"]), "space": [round(rng.uniform(0.5, 20), 2) for _ in range(3)]})
    if any(o["op"] == "gen3" for o in ops) and rng.chance(0.7):
        ops.append({"op": rng.pick(["comp", "mag"]), "space": [round(rng.uniform(0.5, 20), 2) for _ in range(3)]})
    spec = F.rng_spec(rng, models=("Mann", "VK"), two_d=0.2)
    spec["levels"] = [min(x, 3) for x in spec["levels"]]
    quad = rng.chance(0.05)
    if quad:  # thousands of integrand calls are too slow to trace
        for o in ops:
            if o["op"] in ("fig2", "spectra"):
                o["hit"] = None
    return {
        "cfgs": cfgs,
        "seeds": [rng.pick([None, rng.getrandbits(31)]) for _ in cfgs],
        "spec": spec,
        "prof": F.profile(rng),
        "ops": ops,
        "nseed": rng.getrandbits(31),
        "quad": quad,
        "font": rng.pick([8.0, 10.0, 13.0]),
    }


def warm():
    F.warm()
    import matplotlib.pyplot as plt

    import drdmannturb.fluctuation_generation.low_frequency.large_plot  # noqa: F401
    from drdmannturb.fluctuation_generation import wind_plot
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = LowFreqGenerator({"sigma2": 1.0, "L_2d": 500.0, "psi": 0.7, "z_i": 300.0, "L1_factor": 1, "L2_factor": 1, "exp1": 3, "exp2": 3})
        g.generate()
        g.compute_spectrum()
        g.plot_velocity_fields()
        f, ax = plt.subplots(2, 2)
        ax[0, 0].loglog([1, 2], [1, 2], label="x")
        ax[0, 0].legend()
        f.savefig(io.BytesIO(), format="png")
        plt.close("all")
        u = np.random.RandomState(0).normal(size=(3, 3, 3, 3))
        wind_plot.plot_velocity_components((1.0, 1.0, 1.0), u)
        wind_plot.plot_velocity_magnitude((1.0, 1.0, 1.0), u)


class Record:
    """Every realisation made, in order."""

    def __init__(self, cls):
        self.cls, self.real = cls, cls.generate
        self.all = []
        rec = self

        def generate(self, *a, **k):
            out = rec.real(self, *a, **k)
            rec.all.append((self, float(self.psi), np.array(out[0]), np.array(out[1])))
            return out

        cls.generate = generate


def _near(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1e-300, np.max(np.abs(b), initial=0))))


def _images(fig):
    return [(ax, im) for ax in fig.get_axes() for im in ax.get_images()]


def _arr(im):
    return np.asarray(np.ma.filled(im.get_array(), np.nan), float)


def _spec1d(u, W):
    """k1 -> F(k1), over the wavenumbers below the Nyquist one."""
    p = np.sum(np.abs(np.fft.fft2(u)) ** 2, axis=1) * W / (u.size**2 * 2 * np.pi)
    return 2 * np.pi / W, p[: u.shape[0] // 2]


def _curve(where, line, L, us, W, name, mean_over=1):
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    dk, p = None, 0.0
    for u in us:
        dk, q = _spec1d(u, W)
        p = p + q / len(us)
    if dk < 1e-6:
        return
    seen = 0
    for a, b in zip(x, y):
        m = int(round(a / (L * dk)))
        if m >= len(p):
            continue
        if abs(a - m * dk * L) > 1e-6 * a:
            raise Violation("place", f"{where}: {name} drawn at k1 L = {a:.6g}, not a wavenumber of the grid")
        w = m * dk * p[m]
        if abs(b - w) > 1e-6 * max(np.max(np.arange(len(p)) * dk * p), 1e-300):
            raise Violation("curve", f"{where}: {name} at k1 L = {a:.4g} drawn as {b:.6g}, the realisations' own value is {w:.6g}")
        seen += 1
    if seen != len(p) - 1:
        raise Violation("curve", f"{where}: {name} has {seen} points below the Nyquist wavenumber, the grid has {len(p) - 1}")


def _target(psi, L_2d, z_i, c, k1):
    """Stand-in for the slow quadrature: some curve that depends on everything the target depends on."""
    f = c * np.abs(k1) ** -1.5 * (1 + psi) * L_2d**0.1 / z_i**0.2
    return f, 2.5 * f + 1e-3


def _check_target(where, ax, gen_, quad, name, i):
    if quad:
        return
    ln = [x for x in ax.get_lines() if re.search("target|analytical", x.get_label(), re.I)]
    if len(ln) != 1:
        raise Violation("panels", f"{where}: {len(ln)} target curves for {name}")
    x, y = (np.asarray(v, float) for v in (ln[0].get_xdata(), ln[0].get_ydata()))
    k = x / gen_.L_2d
    if not _near(y, k * _target(gen_.psi, gen_.L_2d, gen_.z_i, gen_.c, k)[i], 1e-5):
        raise Violation("target", f"{where}: the target curve for {name} is not that of its own generator")


def _f_axes(fig):
    """Axes by the component named on their y axis, in drawing order."""
    out = {"11": [], "22": []}
    for ax in fig.get_axes():
        m = re.search(r"F_\{?(11|22)", ax.get_ylabel())
        if m:
            out[m.group(1)].append(ax)
    return out


def execute(plan, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    from drdmannturb.fluctuation_generation import wind_plot
    from drdmannturb.fluctuation_generation.low_frequency import fluctuation_field_generator as ffg
    from drdmannturb.fluctuation_generation.low_frequency import large_plot as lp

    cls = ffg.LowFreqGenerator
    rec = Record(cls)
    Figure.tight_layout = lambda *a, **k: None
    matplotlib.rcParams["font.size"] = plan["font"]
    matplotlib.rcParams["figure.max_open_warning"] = 0
    if not plan["quad"]:
        cls.analytical_spectrum = lambda self, k1_arr, *a, **k: _target(self.psi, self.L_2d, self.z_i, self.c, np.asarray(k1_arr, float))
    warnings.simplefilter("ignore")
    np.random.seed(plan["nseed"])
    gens = [cls(dict(c), seed=s) if s is not None else cls(dict(c)) for c, s in zip(plan["cfgs"], plan["seeds"])]
    last = [None] * len(gens)
    g3 = None
    drawn = []  # figures already made, with what they showed

    def attempt(o, fn):
        """Run fn, perhaps cut short. True if it finished."""
        h = o.get("hit")
        if not h:
            fn()
            return True
        if h["exc"] == "fft":
            real = np.fft.ifft2
            at = [int(h["frac"] * 3)]

            def bad(*a, **k):
                at[0] -= 1
                if at[0] < 0:
                    raise MemoryError("injected")
                return real(*a, **k)

            np.fft.ifft2 = bad
            try:
                fn()
                return True
            except MemoryError:
                ctx.fault("transform-fails")
                return False
            finally:
                np.fft.ifft2 = real
        exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}[h["exc"]]
        n = seams.in_fork(_count, fn)
        it = seams.Interruptor(int(h["frac"] * n), exc)
        try:
            with it:
                fn()
            return True
        except exc:
            ctx.fault(h["exc"])
            return False
        finally:
            ctx.schedule_points += it.n

    for step, o in enumerate(plan["ops"]):
        op = o["op"]
        where = f"step {step} ({op})"
        before, rc, n0 = set(plt.get_fignums()), dict(matplotlib.rcParams), len(rec.all)
        done = None
        if op == "gen":
            g = gens[o["g"]]
            done = attempt(o, g.generate)
            if g.u1 is not None:
                last[o["g"]] = (np.array(g.u1), np.array(g.u2))
        elif op in ("fields", "spectra"):
            g = gens[o["g"]]
            if last[o["g"]] is None:
                continue
            st = _streams(g)
            fn = g.plot_velocity_fields if op == "fields" else lambda: lp.plot_spectra_comparison(g)  # noqa: E731
            done = attempt(o, fn)
            st2 = _streams(g)
            if st != st2:
                raise Violation("noise-consumed", f"{where}: plotting used up random numbers")
            if done:
                fig = _new(plt, before, where)
                _fields(fig, g, last[o["g"]], where) if op == "fields" else _spectra(fig, g, last[o["g"]], plan["quad"], where)
                drawn.append((fig, _shown(fig)))
        elif op == "fig2":
            a, b = gens[o["a"]], gens[o["b"]]
            done = attempt(o, lambda: lp.recreate_fig2(a, b, num_realizations=o["n"]))
            mine = rec.all[n0:]
            for i, g in enumerate(gens):
                if g.u1 is not None:
                    last[i] = (np.array(g.u1), np.array(g.u2))
            if done and a is not b and mine:
                fig = _new(plt, before, where)
                axes = _f_axes(fig)
                for j, g in enumerate((a, b)):
                    rs = [r for r in mine if r[0] is g]
                    if len(rs) != o["n"]:
                        raise Violation("realisations", f"{where}: {len(rs)} realisations made for generator {j}, {o['n']} asked for")
                    for i, name in enumerate(("11", "22")):
                        if len(axes[name]) != 2:
                            raise Violation("panels", f"{where}: {len(axes[name])} panels for F{name}")
                        ax = axes[name][j]
                        ln = [x for x in ax.get_lines() if "numerical" in x.get_label().lower()]
                        if len(ln) != 1:
                            raise Violation("panels", f"{where}: {len(ln)} numerical curves")
                        _curve(where, ln[0], g.L_2d, [r[2 + i] for r in rs], g.user_L1, f"F{name} of generator {j}")
                        _check_target(where, ax, g, plan["quad"], f"F{name} of generator {j}", i)
                drawn.append((fig, _shown(fig)))
        elif op == "angles":
            cfg = dict(plan["cfgs"][o["cfg"]])
            keep = dict(cfg)
            out = []
            psi = list(o["psi"])
            done = attempt(o, lambda: out.append(lp.anisotropy_study(cfg, psi, num_realizations=o["n"], do_plot=o["plot"])))
            if cfg != keep or psi != o["psi"]:
                raise Violation("argument-changed", f"{where}: the study changed its arguments")
            if done:
                _angles(out[-1], plt, before, rec.all[n0:], o, ctx, where)
        elif op == "sizes":
            done = _sizes(lp, ffg, cls, plt, before, plan["cfgs"][o["cfg"]], rec, n0, o, where)
        elif op == "gen3":
            if g3 is None:
                g3 = F.build(plan["spec"])
            F.gen(g3, o["n"], plan["prof"])
        elif op in ("comp", "mag"):
            if g3 is None or g3.total_fluctuation.size == 0:
                continue
            u = np.array(g3.total_fluctuation)
            fig = (wind_plot.plot_velocity_components if op == "comp" else wind_plot.plot_velocity_magnitude)(tuple(o["space"]), g3.total_fluctuation)
            if not np.array_equal(u, g3.total_fluctuation):
                raise Violation("field-changed", f"{where}: drawing changed the field")
            _volumes(fig, u, op, o["space"], where)
            drawn.append((fig, _shown(fig)))
        for i, g in enumerate(gens):
            if last[i] is not None and not (np.array_equal(g.u1, last[i][0]) and np.array_equal(g.u2, last[i][1])):
                raise Violation("field-changed", f"{where}: the stored field of generator {i} changed")
        if dict(matplotlib.rcParams) != rc:
            raise Violation("settings-leak", f"{where} left other matplotlib settings behind")
        for fig, shown in drawn:
            now = _shown(fig)
            if len(now) != len(shown) or not all(np.array_equal(p, q, equal_nan=True) for p, q in zip(now, shown)):
                raise Violation("figure-changed", f"{where}: a figure made earlier shows something else now")
        ctx.event(op, done, len(rec.all))
        ctx.probe(op)


def _streams(g):
    import pickle

    own = getattr(g, "rng", None)
    return pickle.dumps(np.random.get_state()), str(own.bit_generator.state) if isinstance(own, np.random.Generator) else None


def _count(fn):
    with seams.Interruptor() as it:
        fn()
    return it.n


def _new(plt, before, where):
    new = sorted(set(plt.get_fignums()) - before)
    if len(new) != 1:
        raise Violation("no-figure", f"{where}: {len(new)} figures made")
    return plt.figure(new[0])


def _shown(fig):
    if hasattr(fig, "get_axes"):
        return [_arr(im).copy() for _, im in _images(fig)] + [np.array(ln.get_xydata(), float) for ax in fig.get_axes() for ln in ax.get_lines()]
    return [np.array(t.value, float) for t in fig.data]


def _fields(fig, g, last, where):
    got = {}
    for ax, im in _images(fig):
        t = ax.get_title()
        i = 1 if re.search(r"\b(v|u_?2)\b", t) else 0 if re.search(r"\b(u|u_?1)\b", t) else None
        if i is not None:
            if i in got:
                raise Violation("panels", f"{where}: two panels {t!r}")
            got[i] = im
    if sorted(got) != [0, 1]:
        raise Violation("panels", f"{where}: panels {sorted(got)}")
    lim = max(np.max(np.abs(last[0])), np.max(np.abs(last[1])))
    dx, dy = g.user_L1 / g.user_N1 / 1000, g.user_L2 / g.user_N2 / 1000
    for i, im in got.items():
        if im.origin != "lower" or not np.array_equal(_arr(im), last[i].T):
            raise Violation("field-shown", f"{where}: the panel of component {i} does not show the stored field")
        x0, x1, y0, y1 = im.get_extent()
        # edges or centres of the outer cells, in kilometres
        if abs(x0) > 0.51 * dx or abs(y0) > 0.51 * dy or abs(x1 - g.user_L1 / 1000) > 1.01 * dx or abs(y1 - g.user_L2 / 1000) > 1.01 * dy:
            raise Violation("place", f"{where}: drawn over {im.get_extent()} km, the domain is {g.user_L1 / 1000} x {g.user_L2 / 1000} km")
        lo, hi = im.get_clim()
        if not (math.isclose(lo, -hi) and hi >= 0.999 * lim):
            raise Violation("colours", f"{where}: colours cover {lo} to {hi}, the field reaches {lim}")


def _spectra(fig, g, last, quad, where):
    axes = _f_axes(fig)
    for i, name in enumerate(("11", "22")):
        if len(axes[name]) != 1:
            raise Violation("panels", f"{where}: {len(axes[name])} panels for F{name}")
        ln = [x for x in axes[name][0].get_lines() if "numerical" in x.get_label().lower()]
        if len(ln) != 1:
            raise Violation("panels", f"{where}: {len(ln)} numerical curves for F{name}")
        _curve(where, ln[0], g.L_2d, [last[i]], g.user_L1, f"F{name}")
        _check_target(where, axes[name][0], g, quad, f"F{name}", i)


def _angles(res, plt, before, mine, o, ctx, where):
    psi = o["psi"]
    if not mine:
        return
    if sorted(map(float, res)) != sorted(set(map(float, psi))):
        raise Violation("settings-shown", f"{where}: angles {psi}, results for {sorted(res)}")
    by = {}
    for p in psi:
        by[p] = [r for r in mine if abs(r[1] - math.radians(p)) < 1e-12]
        n = o["n"]
        vs = [(float(np.var(r[2])), float(np.var(r[3]))) for r in by[p]]
        means = [np.mean(vs[k : k + n], axis=0) for k in range(len(vs) - n + 1)]
        r = res[p]
        if not any(_near([r["avg_u1_var"], r["avg_u2_var"], r["avg_total_var"]], [m[0], m[1], m[0] + m[1]], 1e-9) for m in means):
            raise Violation("average", f"{where}: averages for angle {p} are {r}, its own realisations give {[list(m) for m in means]}")
    new = sorted(set(plt.get_fignums()) - before)
    if not o["plot"]:
        if new:
            raise Violation("no-figure", f"{where}: figure made though none was asked for")
        return
    if len(new) != 1:
        raise Violation("no-figure", f"{where}: {len(new)} figures made")
    ims = [x for x in _images(plt.figure(new[0])) if x[0].get_label() != "<colorbar>"]
    if len(ims) != 2 * len(psi):
        raise Violation("panels", f"{where}: {len(ims)} images for {len(psi)} angles")
    for i, p in enumerate(psi):
        a, b = (_arr(im) for _, im in ims[2 * i : 2 * i + 2])
        if not any(np.array_equal(a, r[2].T) and np.array_equal(b, r[3].T) for r in by[p]):
            raise Violation("field-shown", f"{where}: row {i} does not show a realisation of angle {p}")
    ctx.probe("angles-drawn", len(psi))


def _sizes(lp, ffg, cls, plt, before, cfg, rec, n0, o, where):
    class Small(cls):
        def __init__(self, config, *a, **k):
            c = dict(config)
            self.asked = (c["exp1"], c["exp2"], c["L1_factor"], c["L2_factor"])
            c["exp1"], c["exp2"] = max(1, c["exp1"] - o["cut"]), max(1, c["exp2"] - o["cut"])
            super().__init__(c, *a, **k)

    base = dict(cfg)
    ffg.LowFreqGenerator = Small
    try:
        lp.length_AND_grid_size_study(base, do_plot=True, num_realizations=o["n"])
    finally:
        ffg.LowFreqGenerator = cls
    if base != cfg:
        raise Violation("argument-changed", f"{where}: the study changed the configuration it was given")
    mine = rec.all[n0:]
    if not mine or not all(hasattr(r[0], "asked") for r in mine):
        return False
    by = {}
    for r in mine:
        by.setdefault(r[0].asked, []).append(r)
    es, fs = sorted({k[0] for k in by}), sorted({k[2] for k in by})
    for n in sorted(set(plt.get_fignums()) - before):
        fig = plt.figure(n)
        for ax, im in _images(fig):
            t = ax.get_title().lower()
            which = "u1" if "u1" in t else "u2" if "u2" in t else "total" if "total" in t else None
            if which is None:
                continue
            a = _arr(im)
            rows = [int(m.group(1)) for m in (re.search(r"2\^(\d+)", x.get_text()) for x in ax.get_yticklabels()) if m]
            cols = [float(x.get_text()) for x in ax.get_xticklabels()]
            if a.shape != (len(es), len(fs)) or sorted(rows) != es or sorted(cols) != fs:
                raise Violation("settings-shown", f"{where}: {which}: rows {rows}, columns {cols}")
            for i, e in enumerate(rows):
                for j, f in enumerate(cols):
                    rs = by[e, e, f, f]
                    v = {"u1": np.mean([np.var(r[2]) for r in rs]), "u2": np.mean([np.var(r[3]) for r in rs])}
                    v["total"] = v["u1"] + v["u2"]
                    if len(rs) != o["n"] or not math.isclose(a[i, j], v[which], rel_tol=1e-9):
                        raise Violation("average", f"{where}: {which} for 2^{e}, factor {f}: shown {a[i, j]}, own {v[which]} from {len(rs)} realisations")
    plt.close("all")
    return True


def _volumes(fig, u, op, space, where):
    if len(fig.data) != (3 if op == "comp" else 1):
        raise Violation("panels", f"{where}: {len(fig.data)} volumes")
    for i, t in enumerate(fig.data):
        want = u[..., i] if op == "comp" else np.sqrt((u**2).sum(-1))
        at = []
        for v, h, n in zip((t.x, t.y, t.z), space, want.shape):
            q = np.asarray(v, float) / h
            k = np.rint(q).astype(int)
            if np.any(np.abs(q - k) > 1e-6) or k.min() < 0 or k.max() >= n:
                raise Violation("place", f"{where}: points off the grid")
            at.append(k)
        got = np.full(want.shape, np.nan)
        got[tuple(at)] = np.asarray(t.value, float)
        if not _near(np.nan_to_num(got, nan=1e30), want, 1e-6):
            raise Violation("field-shown", f"{where}: volume {i} does not show its component of the field at its place")
