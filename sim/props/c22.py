"""C22: a plot shows, under each component's name, the data last fitted and the model as it is now."""

import errno
import os
import re

import numpy as np

from .. import calib as C
from .. import seams, zygote
from ..core import Violation

ID = "C22"
WORLDS = True
RUNS = {"quick": 220, "thorough": 8000}
LEVEL = "exploration"
RULE = (
    "one run = one seeded history on one or two problems in one process (set parameters, calibrate with and without coherence data, calibrations and plots cut "
    "short by an interrupt or allocation failure at a seeded point, figures closed, plots of own or given data, saved or not, disk faults while saving); after "
    "every plot each curve is compared with the data and with a fresh model at the current parameters; distinct = distinct event logs"
)
REAL = ["CalibrationProblem.plot", "CalibrationProblem.calibrate", "OnePointSpectra", "matplotlib figures", "PNG writer"]
STUB = ["canvas rendering (in most runs), resolution of saved images", "tensorboard writer thread", "disk writes (errors, full disk, short, interrupted)"]
ASSUMPTIONS = ["after a calibration that failed, the data shown may be those of that calibration or of the one before"]
MIN_LEN = {"ops": 1}
OPS = ["open", "write", "close"]


def gen(rng, tier, idx):
    specs = []
    coh = rng.chance(0.15)
    double = rng.chance(0.2)
    for _ in range(rng.pick([1, 1, 2])):
        s = C.rng_spec(rng, kinds=("TAUNET", "MANN_APPROX", "MANN", "TWOTHIRD", "CONST"), epochs=(1, 2))
        s["ncomp"] = rng.pick([3, 4, 6, 6])
        s["double"] = double
        s["coh"] = C.coherence_spec(rng) if coh and rng.chance(0.8) else None
        if s["coh"]:
            s["epochs"], s["wolfe"], s["coh"]["nfreq"], s["npts"] = 1, 3, rng.randrange(2, 4), 6
        specs.append(s)
    ops = [{"op": "calib", "p": i, "d": rng.randrange(3), "coh": rng.chance(0.8)} for i in range(len(specs))]
    heavy = 0
    for _ in range(rng.randrange(1, 7 if not coh else 5)):
        p = rng.randrange(len(specs))
        k = rng.randrange(20)
        if k < 4:
            ops.append({"op": "set", "p": p, "salt": rng.randrange(50)})
        elif k < 7 and heavy < 2:
            heavy += 1
            ops.append({"op": "calib", "p": p, "d": rng.randrange(3), "coh": rng.chance(0.6)})
        elif k < 9 and heavy < 2:
            heavy += 1
            ops.append({"op": "hit", "p": p, "d": rng.randrange(3), "frac": rng.random(), "exc": rng.pick(["interrupt", "memory"])})
        elif k < 10:
            ops.append({"op": "bad", "p": p, "d": rng.randrange(3)})
        elif k < 11:
            ops.append({"op": "close"})
        elif k < 13:
            ops.append({"op": "hitplot", "p": p, "frac": rng.random(), "exc": rng.pick(["interrupt", "memory"])})
        else:
            ops.append(_plot(rng, p))
    ops.append(_plot(rng, rng.randrange(len(specs))))
    return {"specs": specs, "ops": ops, "render": rng.chance(0.1), "font": rng.pick([7.0, 9.0, 11.5, 14.0]), "pseed": rng.getrandbits(31), "world": rng.pick([None, 0, 1])}


def _plot(rng, p):
    f = None
    save = rng.chance(0.12)
    if save and rng.chance(0.5):
        f = {"kind": rng.pick(["err", "full", "short", "eintr"]), "frac": rng.random(), "err": rng.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT]), "part": rng.random()}
    return {"op": "plot", "p": p, "tau": rng.chance(0.6), "given": rng.randrange(3) if rng.chance(0.25) else None, "vals": rng.chance(0.15), "save": save, "stale": rng.chance(0.4), "fault": f}


def warm():
    C.warm()
    import contextlib
    import io

    import matplotlib.pyplot as plt

    with contextlib.redirect_stdout(io.StringIO()), plt.style.context("bmh"):
        fig, ax = plt.subplots(2, 3, figsize=(15, 8), sharex=True)
        for a in ax.flat:
            a.plot([1, 2], [1, 2], label=r"$F_11$ model")
            a.legend()
            a.set_xscale("log")
            a.set_yscale("log")
            a.grid(which="both")
            a.set_title(r"$\tau_{model}(k_1)$")
        fig.tight_layout()
        fig.canvas.draw()
        b = io.BytesIO()
        fig.savefig(b, format="png")
        plt.close("all")
    from PIL import Image  # noqa: F401


def _data(spec, d):
    s = dict(spec, dataseed=spec["dataseed"] + 1000 * d)
    if d == 2:
        s["k1"] = spec["k1"] + 1
    return C.data(s)


def _fresh(spec, par, k1, taus, coh, d, _ctx=None):
    """Model curves of a fresh object with these parameters."""
    import torch

    pb = C.build(spec, d)
    pb.parameters = par
    out = {"spectra": np.array(pb.eval(torch.tensor(k1)), float) / spec["ustar"] ** 2}
    with torch.no_grad():
        if taus is not None:
            out["tau"] = [pb.OPS.EddyLifetime(torch.tensor(t)).numpy().astype(float) for t in taus]
        if coh is not None:
            seps, freqs = coh
            f = np.asarray(freqs, float)
            m = np.ones((3, len(seps), len(f)))
            live = f > 1e-6
            k = torch.tensor(pb.phys_params.wavenumber_conversion_factor * f[live] / spec["Uref"], dtype=torch.get_default_dtype())
            m[:, :, live] = pb.OPS.SpectralCoherence(k, torch.tensor(seps, dtype=torch.get_default_dtype())).numpy()
            out["coh"] = m
    return out


def _near(a, b, tol=2e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    ok = np.isfinite(b)
    return bool(np.all(np.abs(a[ok] - b[ok]) <= tol * max(1e-30, np.max(np.abs(b[ok]), initial=0))))


def _y(line):
    y = line.get_ydata(orig=True)
    return np.asarray(y.detach().numpy() if hasattr(y, "detach") else y, float)


def _x(line):
    x = line.get_xdata(orig=True)
    return np.asarray(x.detach().numpy() if hasattr(x, "detach") else x, float)


IJ = {"11": (0, 0), "22": (1, 1), "33": (2, 2), "13": (0, 2), "23": (1, 2), "12": (0, 1)}
ORDER = ["11", "22", "33", "13", "23", "12"]
HAS = {3: ORDER[:3], 4: ORDER[:4], 6: ORDER}


def _panels(fig):
    out = {}
    for ax in fig.get_axes():
        m = re.search(r"(-?)\s*F_.*?(11|22|33|13|23|12)", ax.get_title())
        if not m:
            continue
        model = [ln for ln in ax.get_lines() if "model" in ln.get_label()]
        data = [ln for ln in ax.get_lines() if "data" in ln.get_label()]
        if m.group(2) in out or len(model) != 1 or len(data) > 1:
            raise Violation("panels", f"panel {ax.get_title()!r}: {len(model)} model and {len(data)} data curves")
        out[m.group(2)] = (-1 if m.group(1) else 1, model[0], data[0] if data else None)
    return out


def _judge(pb, spec, cands, vals, tau, cohs, ctx, where, world=None):
    fig = pb.fig_spectra
    pan = _panels(fig)
    if sorted(pan) != sorted(ORDER):
        raise Violation("panels", f"{where}: panels {sorted(pan)}")
    par = C.snapshot(pb)
    k1s = _x(pan["11"][1])
    match = None
    for d in cands:
        k1 = np.asarray(d["k1"].numpy(), float)
        if _near(k1s, k1) and all(
            pan[c][2] is not None and _near(_x(pan[c][2]), k1) and _near(_y(pan[c][2]), pan[c][0] * d["ops"].numpy()[:, IJ[c][0], IJ[c][1]].astype(float) / spec["ustar"] ** 2)
            for c in HAS[spec["ncomp"]]
        ):
            match = d
            break
    if match is None:
        d = cands[-1]
        off = [c for c in HAS[spec["ncomp"]] if pan[c][2] is None or not _near(_y(pan[c][2]), pan[c][0] * d["ops"].numpy()[:, IJ[c][0], IJ[c][1]].astype(float) / spec["ustar"] ** 2)]
        raise Violation("data-shown", f"{where}: {spec['ncomp']} components, panels {off} do not show the data of their component")
    for c in set(ORDER) - set(HAS[spec["ncomp"]]):
        if pan[c][2] is not None:
            raise Violation("data-shown", f"{where}: panel {c} shows data, but only {spec['ncomp']} components were given")
    taus = None
    if tau:
        k = np.logspace(-3, 3, 50)
        dt = np.float64 if spec["double"] else np.float32
        z = 0 * k
        taus = [np.stack(t, -1).astype(dt) for t in ((k, z, z), (z, k, z), (z, z, k), (k / 3**0.5,) * 3)]
    coh = None
    if cohs:
        seps, freqs, table = cohs
        rows = np.linspace(0, len(seps) - 1, 4, dtype=int)
        coh = ([seps[r] for r in rows], freqs)
    if world is None:
        want = seams.in_fork(_fresh, spec, par, match["k1"].numpy(), taus, coh, ctx.dir("ref-logs"))
    else:
        want = zygote.call(world, "c22", "_fresh", spec, par, match["k1"].numpy(), taus, coh, ctx.dir("ref-logs"))
    for i, c in enumerate(ORDER):
        w = vals[i] if vals is not None else want["spectra"][i]
        if not _near(_x(pan[c][1]), k1s) or not _near(_y(pan[c][1]), pan[c][0] * w):
            raise Violation("model-shown", f"{where}: panel {c} does not show the model's spectrum at its current parameters")
    if tau:
        lines = {ln.get_label(): ln for ln in pb.fig_tau.get_axes()[0].get_lines()}
        for w, lab in zip(want["tau"], ("(k_1)", "(k_2)", "(k_3)", "(k,k,k)")):
            hit = [ln for n, ln in lines.items() if lab in n]
            if len(hit) != 1 or not _near(_y(hit[0]), w) or not np.allclose(_x(hit[0]), np.logspace(-3, 3, 50) * spec["L"], rtol=1e-4):
                raise Violation("lifetime-shown", f"{where}: curve {lab} is not the model's eddy lifetime at its current parameters")
    if cohs:
        axes = pb.fig_coherence.get_axes()
        if len(axes) != 12:
            raise Violation("panels", f"{where}: {len(axes)} coherence panels")
        for r in range(4):
            m = re.search(r"r\s*=\s*(-?[\d.]+(?:e[-+]?\d+)?)\s*$", axes[3 * r].get_ylabel())
            if m and abs(float(m.group(1)) - seps[rows[r]]) > 0.051:
                raise Violation("separation-named", f"{where}: row {r} is labelled {axes[3 * r].get_ylabel()!r} and shows separation {seps[rows[r]]}")
            for col in range(3):
                ls = {ln.get_label(): ln for ln in axes[3 * r + col].get_lines()}
                if set(ls) != {"Data", "Model"}:
                    raise Violation("panels", f"{where}: coherence panel shows {sorted(ls)}")
                if not _near(_x(ls["Data"]), freqs) or not _near(_y(ls["Data"]), table[col][rows[r]]):
                    raise Violation("coherence-data-shown", f"{where}: separation {rows[r]}, component {'uvw'[col]}: not the measured coherence")
                if not _near(_y(ls["Model"]), want["coh"][col][r], 1e-4):
                    raise Violation("coherence-model-shown", f"{where}: separation {rows[r]}, component {'uvw'[col]}: not the model's coherence at its current parameters")
        ctx.probe("coherence-plots")


def _measured(path_rows):
    seps = sorted({(r[0], r[2]) for r in path_rows})
    freqs = sorted({(r[1], r[3]) for r in path_rows})
    t = np.zeros((3, len(seps), len(freqs)))
    for r in path_rows:
        t[:, r[0], r[1]] = r[4:7]
    return [s[1] for s in seps], [f[1] for f in freqs], t


def _png(path, where):
    from PIL import Image

    try:
        raw = open(path, "rb").read()
        if not raw.endswith(b"IEND\xaeB`\x82"):
            raise ValueError("file ends early")
        with Image.open(path) as im:
            im.load()
            a = np.asarray(im.convert("L"))
    except (OSError, ValueError, SyntaxError) as e:
        raise Violation("image-damaged", f"{where}: {os.path.basename(path)}: {e}") from None
    if a.std() < 1:
        raise Violation("image-damaged", f"{where}: {os.path.basename(path)} is blank")


def execute(plan, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure

    real_save, real_draw = Figure.savefig, FigureCanvasAgg.draw
    saving = []

    def savefig(self, *a, **k):
        saving.append(1)
        try:
            return real_save(self, *a, **dict(k, dpi=40))  # resolution only: keeps runs short
        finally:
            saving.pop()

    Figure.savefig = savefig
    if not plan["render"]:
        Figure.tight_layout = lambda *a, **k: None
        FigureCanvasAgg.draw = lambda self: real_draw(self) if saving else None
    matplotlib.rcParams["font.size"] = plan["font"]  # the user's own setting
    seams.install_writer(ctx, "eager")
    logs, out = ctx.dir("logs"), ctx.dir("out")
    specs = plan["specs"]
    pbs = [C.start(C.build(s, logs, out), s, 0) for s in specs]
    cohfile = {}
    for i, s in enumerate(specs):
        if s["coh"]:
            cohfile[i] = os.path.join(ctx.scratch, f"coh{i}.dat")
            C.write_coherence(cohfile[i], C.coherence_rows(s["coh"]))
    cands = [[] for _ in specs]  # data sets a plot may show
    coh = [None for _ in specs]  # True, False or None: not known
    disk = None
    for step, o in enumerate(plan["ops"]):
        op = o["op"]
        if op == "close":
            plt.close("all")
            ctx.event("close")
            continue
        p = o["p"]
        pb, spec = pbs[p], specs[p]
        where = f"step {step} ({op} of problem {p})"
        if op == "set":
            C.start(pb, spec, o["salt"])
            ctx.event("set", p)
            continue
        if op in ("calib", "bad", "hit"):
            d = _data(spec, o["d"])
            if op == "bad":
                d["ops"][0, 0, 0] = float("nan")
            use = op == "calib" and o["coh"] and p in cohfile
            exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}[o["exc"]] if op == "hit" else ()
            outcome = "ok"
            try:
                if op == "hit":
                    n = seams.in_fork(_count, lambda: C.run(pb, spec, None, d))
                    with seams.Interruptor(int(o["frac"] * n), exc):
                        C.run(pb, spec, None, d)
                else:
                    C.run(pb, spec, cohfile[p] if use else None, d)
            except exc:
                outcome = o["exc"]
                ctx.fault(o["exc"])
            except (ValueError, RuntimeError) as e:
                outcome = type(e).__name__
            if outcome == "ok":
                cands[p], coh[p] = [d], use
            else:
                cands[p] = cands[p] + [d]
                coh[p] = None
            ctx.event(op, p, outcome)
            if not np.all(np.isfinite(C.snapshot(pb))):
                C.start(pb, spec, 1)
            continue
        if op == "hitplot":
            if not cands[p] or coh[p] is None:
                continue
            exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}[o["exc"]]
            before = C.snapshot(pb)
            n = seams.in_fork(_count, pb.plot)
            try:
                with seams.Interruptor(int(o["frac"] * n), exc):
                    pb.plot()
            except exc:
                ctx.fault(f"{o['exc']}-in-plot")
            if C.snapshot(pb).tobytes() != before.tobytes():
                raise Violation("parameters-changed", f"{where} changed the parameters")
            ctx.event("hitplot", p, int(o["frac"] * n), n)
            continue
        # plot
        if not cands[p] or coh[p] is None:
            ctx.event("plot skipped")
            continue
        kw = {"plot_tau": o["tau"]}
        show = cands[p]
        if o["given"] is not None:
            d = _data(spec, o["given"])
            show = [d]
            kw["OPSData"] = ([(float(k), 1.0) for k in d["k1"]], d["ops"])
        vals = None
        if o["vals"]:
            import torch

            vals = np.random.RandomState(step).uniform(0.1, 1, (6, len(show[-1]["k1"])))
            if any(len(s["k1"]) != vals.shape[1] for s in show):
                vals = None
            else:
                kw["model_vals"] = torch.tensor(vals)
        files = []
        if o["save"]:
            kw.update(save=True, save_dir=os.path.join(out, f"s{step}"), save_filename="fig")
            files = [os.path.join(out, f"s{step}", "fig_spectra.png")] + ([os.path.join(out, f"s{step}", "fig_tau.png")] if o["tau"] else [])
            if o.get("stale"):  # files of an earlier, other plot
                os.makedirs(os.path.dirname(files[0]), exist_ok=True)
                for x in files:
                    with open(x, "wb") as h:
                        h.write(b"an earlier image")
        before = C.snapshot(pb)
        rc = dict(matplotlib.rcParams)
        f = o.get("fault")
        if f and o["save"]:
            disk = disk or seams.Disk()

            def count():
                disk.arm(out, OPS)
                pb.plot(**kw)
                return disk.disarm()[0]

            n = seams.in_fork(count)
            disk.arm(out, OPS, at=int(f["frac"] * n), kind=f["kind"], err=f["err"], frac=f["part"])
            try:
                pb.plot(**kw)
                failed = None
            except OSError as e:
                failed = e.errno
            _, fired = disk.disarm()
            ctx.fault(f"disk-{f['kind']}", int(fired > 0))
            ctx.event("plot under fault", f["kind"], int(f["frac"] * n), n, failed)
            if failed is not None and (not fired or f["kind"] in ("short", "eintr")):
                raise Violation("save-refused", f"{where}: {failed} although every write could be completed")
            if failed is None:
                for x in files:
                    _png(x, where + f", saving reported success under disk fault {f['kind']}")
        old = _drawn(pb)
        pb.plot(**kw)
        if coh[p] is False and _drawn(pb) != old:
            raise Violation("coherence-of-other-data", f"{where}: draws coherence, but the last calibration had no coherence data")
        if C.snapshot(pb).tobytes() != before.tobytes():
            raise Violation("parameters-changed", f"{where} changed the parameters")
        if dict(matplotlib.rcParams) != rc:
            raise Violation("settings-leak", f"{where} left other matplotlib settings behind")
        cohs = _measured(C.coherence_rows(spec["coh"])) if coh[p] else None
        _judge(pb, spec, show, vals, o["tau"], cohs, ctx, where, plan.get("world"))
        for x in files:
            _png(x, where)
        ctx.event("plot", p, "tau" if o["tau"] else "", "given" if o["given"] is not None else "own", "saved" if files else "")
        ctx.probe("plots")


def _drawn(pb):
    """What the coherence figure holds: the very curves, or nothing."""
    fig = getattr(pb, "fig_coherence", None)
    return [ln for ax in fig.get_axes() for ln in ax.get_lines()] if fig is not None else []


def _count(fn):
    with seams.Interruptor() as it:
        try:
            fn()
        except (ValueError, RuntimeError):
            pass
    return it.n
