"""C21: parameter studies run in worker processes show each setting's own result, whatever order the workers finish in and whichever fail."""

import pickle
import warnings

import numpy as np

from .. import pool
from ..core import Violation

ID = "C21"
RUNS = {"quick": 500, "thorough": 12000}
LEVEL = "exploration"
RULE = (
    "one run = a history of one to three mesh or domain-size studies on a simulated process pool: seeded number of workers, task placement, durations, order of "
    "results, workers that raise, run out of memory or die, interrupts while waiting; every point on every figure is compared with the setting's own result "
    "recomputed from the noise its worker had; distinct = distinct event logs"
)
REAL = ["mesh_independence_study", "domain_size_study", "LowFreqGenerator", "worker processes (forked, own memory)", "pickling of tasks and results", "matplotlib figures"]
STUB = ["process pool scheduling and completion order", "worker failures and deaths"]
ASSUMPTIONS = ["a study averages five realisations per setting, on the base configuration in the source"]
MIN_LEN = {"studies": 1}


def gen(rng, tier, idx):
    studies = []
    for _ in range(rng.pick([1, 1, 2, 3])):
        if rng.chance(0.8):
            low = rng.randrange(2, 6)
            n = rng.randrange(1, 6)
            s = {"kind": "mesh", "low": low, "high": min(low + n - 1, 7)}
            if rng.chance(0.012):
                s = {"kind": "mesh", "low": 9, "high": 10}
            n = s["high"] - s["low"] + 1
        else:
            n = rng.randrange(1, 5)
            f = [rng.pick([3, 4, 5, 5, 6, 8, 10, 12, 16, 7.5]) for _ in range(n)]
            if rng.chance(0.06):
                f[rng.randrange(n)] = rng.pick([1, 2, 2, 2])  # the grid that is really computed is up to 25 times larger
            if rng.chance(0.6):
                f = sorted(set(f))
            if rng.chance(0.15):
                f[rng.randrange(len(f))] = 0
            n = len(f)
            s = {"kind": "domain", "factors": f, "array": rng.chance(0.4)}
        s["pool"] = {
            "seed": rng.getrandbits(31),
            "workers": rng.pick([1, 2, 2, 3, 4, 8]),
            "spawn": rng.chance(0.5),
            "faults": {},
            "interrupt": rng.randrange(0, n + 1) if rng.chance(0.12) else None,
        }
        if rng.chance(0.6):
            for _ in range(rng.pick([1, 1, 2])):
                s["pool"]["faults"][str(rng.randrange(n))] = rng.pick(["raise", "fft", "raise", "die"])
        studies.append(s)
    return {"studies": studies, "cpus": rng.pick([1, 2, 4, 64])}


def simplify(plan):
    for i, s in enumerate(plan["studies"]):
        for k in list(s["pool"]["faults"]):
            import copy

            c = copy.deepcopy(plan)
            del c["studies"][i]["pool"]["faults"][k]
            yield c
        if s["kind"] == "mesh" and s["high"] > s["low"]:
            import copy

            c = copy.deepcopy(plan)
            c["studies"][i]["high"] -= 1
            yield c


def warm():
    import matplotlib.pyplot as plt

    import drdmannturb.fluctuation_generation.low_frequency.large_plot  # noqa: F401
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = LowFreqGenerator(dict(BASE, exp1=3, exp2=3))
        g.generate()
    f, ax = plt.subplots(2, 1, figsize=(10, 8))
    ax[0].plot([1, 2], [1, 2], label="a")
    ax[1].semilogy([1, 2], [1, 2], label="a")
    ax[0].legend()
    plt.tight_layout()
    plt.close("all")


BASE = {"sigma2": 2.0, "L_2d": 15_000.0, "psi": float(np.deg2rad(45.0)), "z_i": 500.0, "L1_factor": 4, "L2_factor": 4, "exp1": 10, "exp2": 10}


def _cfg(kind, value):
    if kind == "mesh":
        return dict(BASE, exp1=value, exp2=value)
    return dict(BASE, exp1=9, exp2=9, L1_factor=value, L2_factor=value)


def _own(kind, value, state):
    """What a worker that finds the noise source in `state` has to report for one setting."""
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    saved = np.random.get_state()
    try:
        np.random.set_state(state)
        g = LowFreqGenerator(_cfg(kind, value))
        us = [tuple(np.array(u, dtype=float) for u in g.generate()) for _ in range(5)]
    finally:
        np.random.set_state(saved)
    out = {}
    dA = (g.user_L1 / g.user_N1) * (g.user_L2 / g.user_N2)
    for i, name in enumerate(("u1", "u2")):
        m = sum(u[i] for u in us) / 5
        out["norm", name] = float((m**2).sum() * dA)
        out["var", name] = float(m.var())
    return out


def _curves(fig):
    """(quantity, component) -> list of points."""
    got = {}
    axes = [a for a in fig.get_axes() if a.get_visible()]
    for i, ax in enumerate(axes):
        t = ax.get_title().lower()
        q = "norm" if "norm" in t else "var" if "varian" in t else ("norm", "var")[min(i, 1)]
        for line in ax.get_lines():
            lab = line.get_label()
            for name in ("u1", "u2"):
                if name in lab:
                    if (q, name) in got:
                        raise Violation("curve-twice", f"two curves {lab!r} for {q}")
                    got[q, name] = list(zip(np.asarray(line.get_xdata(), float).tolist(), np.asarray(line.get_ydata(), float).tolist()))
    return got


def _close(a, b):
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-18


def _study(s, ctx, j):
    import matplotlib.pyplot as plt

    from drdmannturb.fluctuation_generation.low_frequency import large_plot as lp

    control = pool.install(ctx, s["pool"])
    before = set(plt.get_fignums())
    kind = s["kind"]
    if kind == "mesh":
        settings = list(range(s["low"], s["high"] + 1))
        call = lambda: lp.mesh_independence_study(low=s["low"], high=s["high"])  # noqa: E731
        xof = float
    else:
        settings = list(s["factors"])
        factors = np.array(settings) if s["array"] else list(settings)
        given = pickle.dumps(factors)
        call = lambda: lp.domain_size_study(factors)  # noqa: E731
        xof = lambda f: 15.0 * f  # noqa: E731
    ctx.event("study", j, kind, settings)
    stopped = False
    try:
        call()
    except KeyboardInterrupt:
        if control.stop_at is not None or s["pool"].get("interrupt") is None:
            raise
        stopped = True
    except pool.BrokenProcessPool:
        if not control.refused:  # a pool that broke while it was being fed may be reported; a later break must not lose the results
            raise
        stopped = True
    if kind == "domain" and pickle.dumps(factors) != given:
        raise Violation("argument-changed", "the study changed the caller's list of factors")
    new = sorted(set(plt.get_fignums()) - before)
    if stopped:
        ctx.event("study", j, "stopped")
        ctx.probe("study-stopped")
        return
    if s["pool"].get("interrupt") is not None and control.stop_at is None and not stopped:
        raise Violation("interrupt-swallowed", "an interrupt while waiting for workers was ignored")
    done = [t for t in control.tasks if t["outcome"] == "ok"]
    ctx.event("study", j, "done", len(done), "of", len(settings))
    if not control.tasks:  # not run on a pool this simulator knows: only the settings shown can be judged
        expect = [(v, None) for v in settings if v > 0]
    else:
        if len(control.tasks) != len(settings):
            expect = None
        expect = _expected(kind, settings, control.tasks)
    if not expect:
        if new:
            g = _curves(plt.figure(new[-1]))
            if any(g.values()):
                raise Violation("result-without-run", f"no setting completed, but a figure shows {g}")
        return
    if len(new) != 1:
        raise Violation("no-figure", f"{len(expect)} of {len(settings)} settings completed, {len(new)} figures shown")
    got = _curves(plt.figure(new[0]))
    for q in ("norm", "var"):
        for name in ("u1", "u2"):
            pts = got.get((q, name))
            if pts is None:
                raise Violation("curve-missing", f"no curve for {q} of {name}")
            xs = sorted(xof(v) for v, _ in expect)
            if [round(x, 9) for x in sorted(p[0] for p in pts)] != [round(x, 9) for x in xs]:
                raise Violation("settings-shown", f"{q} of {name}: completed settings {xs}, shown {[p[0] for p in pts]}")
            if [p[0] for p in pts] != sorted(p[0] for p in pts):
                raise Violation("settings-order", f"{q} of {name}: shown in the order {[p[0] for p in pts]}")
            left = list(expect)
            for x, y in pts:
                hit = next((e for e in left if _close(xof(e[0]), x) and (e[1] is None and y > 0 or e[1] is not None and any(_close(o[q, name], y) for o in e[1]))), None)
                if hit is None:
                    raise Violation("wrong-result", f"study {j} ({kind}): {q} of {name} at {x} shown as {y}, own result {[[o[q, name] for o in e[1]] for e in expect if e[1] and _close(xof(e[0]), x)]}")
                left.remove(hit)
    ctx.probe("points", 4 * len(expect))
    ctx.probe(f"study-{kind}")
    if len(done) < len(settings):
        ctx.probe("partial-study")


def _expected(kind, settings, tasks):
    """Completed settings with what their workers had to report. A task belongs to the setting it was given."""
    out = []
    named = []
    for t in tasks:
        vals = [a for a in t["args"] if isinstance(a, (int, float, np.integer, np.floating)) and not isinstance(a, bool)]
        hit = next((float(v) for v in vals if any(float(v) == float(x) for x in settings)), None)
        named.append(hit)
    if sorted(float(x) for x in settings) == sorted(v for v in named if v is not None) and None not in named:
        for t, v in zip(tasks, named):
            v = int(v) if kind == "mesh" else v
            if t["outcome"] == "error" and not t["fault"]:
                try:
                    own = _own(kind, v, t["state"])
                except Exception:  # noqa: BLE001
                    continue  # the setting itself is refused by the generator
                raise Violation("setting-lost", f"the worker for {kind} setting {v} failed with no fault injected ({t['error']}); its result is {own}")
            if t["outcome"] == "ok":
                out.append((v, [_own(kind, v, t["state"])]))
        return out
    # Tasks that do not name their setting: every completed task may be the one of any setting, in order of submission.
    if len(tasks) == len(settings):
        for t, v in zip(tasks, settings):
            if t["outcome"] == "ok":
                out.append((v, [_own(kind, v, t["state"])]))
        return out
    return [(v, None) for v in settings if v > 0] if all(t["outcome"] == "ok" for t in tasks) else None


def execute(plan, ctx):
    import os

    n = plan["cpus"]
    os.cpu_count = lambda: n
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for j, s in enumerate(plan["studies"]):
            _study(s, ctx, j)
