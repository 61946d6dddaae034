"""C06: a saved model comes back exactly, whatever happened before, between and after."""

import errno
import io
import os
import pickle
import shutil
from pathlib import Path

import numpy as np

from .. import calib as C
from .. import fields as F
from .. import seams, zygote
from ..core import Violation

ID = "C06"
WORLDS = True
RUNS = {"quick": 500, "thorough": 9000}
LEVEL = "exploration"
RULE = "one run = one seeded history of set/calibrate/save/load/restart steps over several models sharing a directory, with a reference map of what each file must contain, loads under short reads and read errors, truncated files, and a field generated from the reloaded model; distinct = distinct event logs"
REAL = ["CalibrationProblem", "save_model", "pickle and CPU_Unpickler loading", "FluctuationFieldGenerator (DRD)"]
STUB = ["disk reads (short reads, EIO)", "FFTW planner choice", "tensorboard writer thread"]
ASSUMPTIONS = ["a model file is read with pickle.load or the package's CPU unpickler, as the examples do"]
MIN_LEN = {"ops": 1}


def gen(rng, tier, idx):
    base = C.rng_spec(rng)
    slots = []
    for k in rng.sample(["TAUNET", "MANN", "MANN_APPROX", "TWOTHIRD", "CONST"], rng.randrange(1, 4)):
        s = C.rng_spec(rng)
        s["kind"] = k
        s["double"] = base["double"]
        s["epochs"] = 1
        slots.append(s)
    if not any(s["kind"] == "TAUNET" for s in slots) and rng.chance(0.7):
        slots[0]["kind"] = "TAUNET"
    ops = []
    for _ in range(rng.randrange(3, 9)):
        ops.append({"op": rng.pick(["set", "set", "calibrate", "save", "save", "save", "load", "load", "dirty"]), "s": rng.randrange(len(slots)), "salt": rng.randrange(1000), "path": rng.pick(["str", "Path", "default", "default", "away"]), "cpu": rng.chance(0.3)})
    ops.append({"op": "save", "s": 0, "salt": 0, "path": "str", "cpu": False})
    return {
        "slots": slots,
        "ops": ops,
        "chunk": rng.pick([0, 0, 1, 7, 64]),
        "read_fault": {"frac": rng.random(), "err": errno.EIO} if rng.chance(0.4) else None,
        "fresh": rng.chance(0.4),
        "scales": rng.chance(0.4),
        "trunc": rng.random() if rng.chance(0.5) else None,
        "field": {"spec": F.rng_spec(rng, two_d=0.0), "prof": F.profile(rng)} if rng.chance(0.6) else None,
        "cont": rng.chance(0.5),
        "world": rng.pick([None, 0, 1]),
        "dtype": rng.chance(0.3),
    }


def warm():
    C.warm()
    F.warm(two_d=False)


def _load(path, cpu, kind_spec):
    """A restarted process: read the file and rebuild the problem from nothing else."""
    import torch
    from drdmannturb import CalibrationProblem, CPU_Unpickler, IntegrationParameters

    torch.set_default_dtype(torch.float64 if kind_spec["double"] else torch.float32)
    with open(path, "rb") as f:
        nn_p, prob_p, loss_p, phys_p, par = CPU_Unpickler(f).load() if cpu else pickle.load(f)
    pb = CalibrationProblem(
        nn_params=nn_p, prob_params=prob_p, loss_params=loss_p, phys_params=phys_p,
        integration_params=IntegrationParameters(ops_num_points=kind_spec["npts"], coh_num_points=kind_spec["npts"]),
        device="cpu", logging_directory=None,
    )
    pb.parameters = par
    return pb, par


def _loaded_facts(path, cpu, spec, cont, ctx):
    np.random.seed(3)
    import torch

    torch.manual_seed(99)
    pb, par = _load(path, cpu, spec)
    out = {"file": np.asarray(par).copy(), "par": C.snapshot(pb), "eval": C.evaluate(pb, spec), "cfg": _cfg(pb)}
    if cont:
        pb.logging_directory = ctx.dir("cont-log-l")
        seams.install_writer(ctx, "eager")
        C.run(pb, spec)
        out["cont"] = C.snapshot(pb)
    return out


def _cfg(pb):
    p = pb.prob_params
    q = pb.phys_params
    return (
        p.num_components, p.nepochs, str(p.eddy_lifetime), p.wolfe_iter_count, p.learn_nu, p.use_learnable_spectrum, p.learning_rate, p.tol,
        q.L, q.Gamma, q.sigma, q.Uref, q.zref, q.ustar, tuple(q.domain.tolist()),
        pb.loss_params.alpha_pen1, pb.loss_params.alpha_pen2, pb.loss_params.beta_reg, pb.loss_params.gamma_coherence,
        pb.nn_params.nlayers, pb.nn_params.hidden_layer_size,
    )


def _continue(pb, spec, ctx):
    pb.logging_directory = ctx.dir("cont-log-o")
    seams.install_writer(ctx, "eager")
    C.run(pb, spec)
    return C.snapshot(pb)


def execute(plan, ctx):
    slots = plan["slots"]
    home = ctx.dir("models")
    seams.install_writer(ctx, "random", 1)
    pbs = []
    for i, s in enumerate(slots):
        pb = C.build(s, ctx.dir(f"log{i}"), home)
        C.start(pb, s, 0)
        pbs.append(pb)
    if plan.get("fresh"):  # the directory comes into being with the first save
        os.rmdir(home)
    disk = seams.Disk()
    model = {}  # kind -> what the file must hold
    names = {}
    kinds = [s["kind"] for s in slots]
    for step, o in enumerate(plan["ops"]):
        i = o["s"] % len(slots)
        pb, s = pbs[i], slots[i]
        if o["op"] == "set":
            C.start(pb, s, o["salt"])
        elif o["op"] == "calibrate":
            C.run(pb, s)
        elif o["op"] == "dirty":
            # work with the model between saves: evaluation must not leak into what is saved
            C.evaluate(pb, s)
        elif o["op"] == "save":
            if o["path"] == "Path":
                os.makedirs(home, exist_ok=True)
            before = set(os.listdir(home)) if os.path.isdir(home) else set()
            held_par, held_cfg = C.snapshot(pb), _cfg(pb)
            if o["path"] == "away":  # a copy for somebody else: no file of this directory is concerned
                away = ctx.dir(f"away{step}")
                held = {n: open(os.path.join(home, n), "rb").read() for n in before}
                pb.save_model(away)
                if {n: open(os.path.join(home, n), "rb").read() for n in (os.listdir(home) if os.path.isdir(home) else [])} != held:
                    raise Violation("save-misplaced", f"saving {s['kind']} elsewhere changed the files of the problem's own directory")
                left = os.listdir(away)
                if len(left) != 1 or np.asarray(seams.in_fork(lambda: _load(os.path.join(away, left[0]), False, s)[1])).tobytes() != C.snapshot(pb).tobytes():
                    raise Violation("save-misplaced", f"saving {s['kind']} elsewhere left {left}, not the model")
                ctx.event("save", "away", kinds[i])
                continue
            if o["path"] == "default":
                pb.save_model()
            else:
                pb.save_model(Path(home) if o["path"] == "Path" else home)
            fresh = (set(os.listdir(home)) if os.path.isdir(home) else set()) - before
            if s["kind"] not in names:
                if len(fresh) != 1:
                    raise Violation("save-misplaced", f"first save of {s['kind']} created {sorted(fresh)}")
                names[s["kind"]] = fresh.pop()
            elif fresh:
                raise Violation("save-misplaced", f"saving {s['kind']} again created {sorted(fresh)}")
            model[s["kind"]] = (i, held_par, C.evaluate(pb, s), held_cfg)
        elif o["op"] == "load" and s["kind"] in names:
            _check_load(plan, ctx, home, names, model, s["kind"], slots, o["cpu"], False, pbs)
        ctx.event(o["op"], kinds[i])
    for kind in list(model):
        _check_load(plan, ctx, home, names, model, kind, slots, False, plan["cont"], pbs)
    kind = sorted(model)[0]
    path = os.path.join(home, names[kind])
    raw = open(path, "rb").read()
    spec = slots[model[kind][0]]
    if plan["trunc"] is not None:
        cut = int(plan["trunc"] * len(raw))
        short = os.path.join(home, "short.pkl")
        with open(short, "wb") as f:
            f.write(raw[:cut])
        r = seams.in_fork(lambda: _load(short, False, spec)[1], raw=True)
        ctx.fault("truncated-file")
        if r.error is None and r.code == 0 and np.asarray(r.value).tobytes() != model[kind][1].tobytes():
            raise Violation("truncated-accepted", f"a model file cut at byte {cut} of {len(raw)} was loaded")
        if kind == "TAUNET" and plan["field"]:
            r = seams.in_fork(lambda: _field(plan["field"], short, ctx), raw=True)
            if r.error is None:
                raise Violation("truncated-accepted", f"a field was generated from a model file cut at byte {cut} of {len(raw)}")
        os.unlink(short)
    if "TAUNET" in names and plan["field"]:
        _drd(plan, ctx, home, names, model, slots, disk)


def _check_load(plan, ctx, home, names, model, kind, slots, cpu, cont, pbs):
    i, par, ev, cfg = model[kind]
    spec = slots[i]
    path = os.path.join(home, names[kind])
    disk = seams.Disk()

    def body():
        if plan["chunk"]:
            disk.arm(home, ["read"], chunk=plan["chunk"])
        return _loaded_facts(path, cpu, spec, cont, ctx)

    if plan.get("world") is not None and not plan["chunk"]:
        got = zygote.call(plan["world"], "c06", "_loaded_facts", path, cpu, spec, cont)
        ctx.fault("other-interpreter")
    else:
        got = seams.in_fork(body)
    if plan["chunk"]:
        ctx.fault("short-reads")
    if got["file"].tobytes() != par.tobytes() or got["par"].tobytes() != par.tobytes():
        raise Violation("parameters-changed", f"{kind}: reloaded parameters differ from the saved ones by {np.max(np.abs(got['par'] - par)) if got['par'].shape == par.shape else 'shape'}")
    if got["cfg"] != cfg:
        raise Violation("configuration-changed", f"{kind}: {[(a, b) for a, b in zip(got['cfg'], cfg) if a != b]}")
    if got["eval"].tobytes() != ev.tobytes() and not np.allclose(got["eval"], ev, rtol=1e-6, atol=0):
        raise Violation("prediction-changed", f"{kind}: the reloaded model predicts differently, by {np.max(np.abs(got['eval'] - ev)):.3g}")
    if cont:
        pb = pbs[i]

        def orig(start):
            pb.parameters = start
            return _continue(pb, spec, ctx)

        def same(a):
            return np.allclose(a, want, rtol=1e-5, atol=1e-7, equal_nan=True)

        want = seams.in_fork(orig, par)
        if not same(got["cont"]) and not C.shaky(orig, par, same):
            raise Violation("continuation-differs", f"{kind}: calibration continued from the file differs from continuing in memory by {np.max(np.abs(got['cont'] - want)):.3g}")
    ctx.event("load", kind, "cpu" if cpu else "plain", "exact")


def _field(fs, path, ctx):
    seams.FFTSeam(ctx).install()
    spec = dict(fs["spec"], model="DRD")
    g = F.build(spec, path=path)
    return F.gen(g, 2, fs["prof"]).copy()


def _overwritten(fs, path, newer, ctx):
    """Use a model file, replace it as a second save would, use it again in the same process."""
    here = os.path.join(ctx.dir("overwritten"), "m.pkl")
    shutil.copyfile(path, here)
    _field(fs, here, ctx)
    shutil.copyfile(newer, here + ".new")
    os.utime(here + ".new", ns=(os.stat(here).st_atime_ns, os.stat(here).st_mtime_ns))
    os.replace(here + ".new", here)
    return _field(fs, here, ctx)


def _field_elsewhere(fs, path, double, ctx):
    import torch

    torch.set_default_dtype(torch.float64 if double else torch.float32)
    return _field(fs, path, ctx)


def _drd(plan, ctx, home, names, model, slots, disk):
    import torch

    i, par, _, _ = model["TAUNET"]
    path = os.path.join(home, names["TAUNET"])
    fs = plan["field"]
    # keep the box small: the loaded model's own scales decide buffer and margins
    L, T = float(np.exp(par[0])), float(np.exp(par[1]))
    sp = dict(fs["spec"])
    sp["href"] = min(sp["href"], 5 * sp["dims"][0] / (2 ** sp["levels"][0] + 1) / (3 * T * L), *(3 * sp["dims"][k] / (2 ** sp["levels"][k] + 1) / L for k in (1, 2)))
    fs = dict(fs, spec=sp)
    torch.set_default_dtype(torch.float64 if slots[i]["double"] else torch.float32)
    if plan.get("world") is not None:
        ref = zygote.call(plan["world"], "c06", "_field_elsewhere", fs, path, slots[i]["double"] != plan.get("dtype", False))
    else:
        ref = seams.in_fork(_field, fs, path, ctx)
    if not np.all(np.isfinite(ref)):
        raise Violation("non-finite", "field generated from a saved model is not finite")
    # the file, not this process, decides the field
    with seams.global_noise(plan["env_seed"] if "env_seed" in plan else 0) as stir:
        stir()
        got = _field(fs, path, ctx)
        if not F.close(got, ref, 1e-6):
            raise Violation("field-depends-on-process", f"same model file, same seed: {F.gap(got, ref)}")
        # a re-saved copy of the reloaded model gives the same field
        pb, _ = _load(path, False, slots[i])
        d2 = ctx.dir("resaved")
        pb.save_model(d2)
        got = _field(fs, os.path.join(d2, os.listdir(d2)[0]), ctx)
        if not F.close(got, ref, 1e-6):
            raise Violation("field-changed-by-resave", F.gap(got, ref))
        # other parameters give another field
        par2 = par.copy()
        scales = bool(plan.get("scales"))
        if scales:  # its scales only
            par2[:2] -= 0.3
        else:  # its network only
            par2[5 if slots[i]["spectrum"] else 3 :] += 0.25
        ks = torch.tensor(np.random.RandomState(1).uniform(0.3, 1, (400, 3)) * np.logspace(-3, 3, 400)[:, None], dtype=torch.get_default_dtype())
        before = pb.OPS.tauNet(ks).detach().numpy()
        pb.parameters = par2
        after = pb.OPS.tauNet(ks).detach().numpy()
        if not scales and not np.all(np.abs(after - before) > 1e-3 * np.abs(before)):
            # a network whose units are all off answers the same with other weights
            ctx.probe("insensitive-network")
            return
        d3 = ctx.dir("changed")
        pb.save_model(d3)
        r3 = seams.in_fork(lambda: _field(fs, os.path.join(d3, os.listdir(d3)[0]), ctx), raw=True)
        if r3.error is None and F.close(r3.value, ref, 1e-9):
            raise Violation("field-ignores-model", f"changing the trained {'scales' if scales else 'network'} does not change the field")
        # saving over a file this process has used before: the next field follows the new contents
        pb.save_model(d2)
        r4 = seams.in_fork(_overwritten, fs, path, os.path.join(d2, os.listdir(d2)[0]), ctx, raw=True) if r3.error is None else None
        if r4 is not None and (r4.error is not None or not F.close(r4.value, r3.value, 1e-6)):
            raise Violation("stale-model-used", f"a field made after the model file was overwritten does not follow the new model: {r4.error or F.gap(r4.value, r3.value)}")
    ctx.event("drd-field", ref.shape)
    ctx.probe("drd-field")
    if plan["read_fault"]:
        def count():
            disk.arm(home, ["read"], chunk=64)
            _field(fs, path, ctx)
            return disk.disarm()[0]

        n = seams.in_fork(count)

        def body():
            disk.arm(home, ["read"], at=int(plan["read_fault"]["frac"] * n), kind="err", err=plan["read_fault"]["err"], chunk=64)
            return _field(fs, path, ctx)

        r = seams.in_fork(body, raw=True)
        ctx.fault("read-error")
        if r.error is None and not F.close(r.value, ref, 1e-6):
            raise Violation("read-error-ignored", "a read error while loading the model changed the field instead of failing")
        ctx.event("read-fault", "raised" if r.error else "same")


del io
