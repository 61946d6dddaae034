"""Specs and construction for the spectra-fitting side of the package."""

import os
import warnings

import numpy as np


def rng_spec(rng, kinds=("TAUNET", "TAUNET", "MANN", "MANN_APPROX", "TWOTHIRD", "CONST"), coherence=0.0, epochs=(1, 3)):
    kind = rng.pick(list(kinds))
    return {
        "kind": kind,
        "nlayers": rng.randrange(1, 4),
        "hidden": rng.randrange(2, 7),
        "learn_nu": rng.chance(0.4),
        "spectrum": rng.chance(0.3),
        "ncomp": rng.pick([3, 4, 4, 6]),
        "epochs": rng.randrange(epochs[0], epochs[1] + 1),
        "wolfe": rng.randrange(2, 6),
        "lr": round(rng.uniform(0.1, 1.0), 3),
        "tol": rng.pick([1e-9, 1e-9, 1e-9, 10.0]),
        "pen1": rng.pick([0.0, 0.3, 0.3, 1.7]),
        "pen2": rng.pick([0.0, 0.5, 0.5, 2.0]),
        "ops64": rng.chance(0.12),
        "beta": rng.pick([0.0, 1e-3]),
        "gamma_coh": rng.pick([0.0, 1.0]),
        "L": round(rng.uniform(0.3, 3.0), 3),
        "Gamma": round(rng.uniform(1.0, 4.5), 3),
        "sigma": round(rng.uniform(0.5, 4.0), 3),
        "Uref": round(rng.uniform(5, 25), 2),
        "zref": round(rng.uniform(1, 150), 2),
        "ustar": round(rng.uniform(0.3, 1.5), 3),
        "k1": rng.randrange(4, 9),
        "npts": rng.randrange(6, 13),
        "adam": rng.chance(0.15),
        "wseed": rng.getrandbits(31),
        "dataseed": rng.getrandbits(31),
        "double": rng.chance(0.2),
        "k1order": rng.pick(["up"] * 8 + ["down", "mixed"]),
        "coh": coherence_spec(rng) if rng.chance(coherence) else None,
    }


def coherence_spec(rng):
    return {"nsep": rng.randrange(4, 7), "nfreq": rng.randrange(2, 5), "seed": rng.getrandbits(31)}


def records(spec):
    """The parameter records a problem is built from, as the caller makes them."""
    import torch
    from drdmannturb import (
        EddyLifetimeType,
        IntegrationParameters,
        LossParameters,
        NNParameters,
        PhysicalParameters,
        ProblemParameters,
    )

    torch.set_default_dtype(torch.float64 if spec["double"] else torch.float32)
    return dict(
        nn_params=NNParameters(nlayers=spec["nlayers"], hidden_layer_size=spec["hidden"], activations=[torch.nn.ReLU()] * spec["nlayers"]),
        prob_params=ProblemParameters(
            num_components=spec["ncomp"],
            learning_rate=spec["lr"],
            tol=spec["tol"],
            nepochs=spec["epochs"],
            eddy_lifetime=EddyLifetimeType[spec["kind"]],
            wolfe_iter_count=spec["wolfe"],
            learn_nu=spec["learn_nu"],
            use_learnable_spectrum=spec["spectrum"],
        ),
        loss_params=LossParameters(
            alpha_pen1=spec["pen1"], alpha_pen2=spec["pen2"], beta_reg=spec["beta"], gamma_coherence=spec["gamma_coh"]
        ),
        phys_params=PhysicalParameters(
            L=spec["L"],
            Gamma=spec["Gamma"],
            sigma=spec["sigma"],
            Uref=spec["Uref"],
            zref=spec["zref"],
            ustar=spec["ustar"],
            domain=torch.logspace(-1, 2, spec["k1"]),
        ),
        integration_params=IntegrationParameters(ops_num_points=spec["npts"], coh_num_points=spec["npts"]),
    )


def build(spec, logdir=None, outdir=None, shared=None):
    """shared: a dict of parameter objects (filled on first use) that several problems are built from."""
    import torch
    from drdmannturb import CalibrationProblem

    torch.set_default_dtype(torch.float64 if spec["double"] else torch.float32)
    if shared is None:
        shared = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not shared:
            shared.update(records(spec))
        return CalibrationProblem(**shared, device="cpu", logging_directory=logdir, output_directory=outdir if outdir is not None else "./results")


def weights(spec, n, salt=0):
    """A starting point that is the plan's choice, not the global random stream's."""
    rs = np.random.RandomState((spec["wseed"] + 7919 * salt) & 0x7FFFFFFF)
    w = rs.uniform(-0.3, 0.3, n)
    w[0], w[1], w[2] = np.log(spec["L"]), np.log(spec["Gamma"]), np.log(spec["sigma"])
    w[:3] += rs.uniform(-0.1, 0.1, 3)
    if spec["spectrum"]:
        w[3], w[4] = 4.0 + rs.uniform(-0.2, 0.2), 17 / 6 + rs.uniform(-0.2, 0.2)
    return w.astype(np.float64 if spec["double"] else np.float32)


def k1_data(spec):
    import torch

    return torch.tensor(np.logspace(-1, 1.5, spec["k1"]), dtype=torch.float64 if spec["double"] else torch.float32)


def data(spec):
    import torch

    k1 = k1_data(spec)
    rs = np.random.RandomState(spec["dataseed"] & 0x7FFFFFFF)
    k = k1.numpy()
    ops = np.zeros((len(k), 3, 3))
    for i in range(3):
        ops[:, i, i] = (0.2 + rs.rand()) * k / (1 + (0.6 + rs.rand()) * k) ** (5 / 3)
    for i, j in ((0, 2), (1, 2), (0, 1)):
        ops[:, i, j] = ops[:, j, i] = -0.1 * rs.rand() * k / (1 + k) ** (7 / 3)
    how = spec.get("k1order", "up")
    if how != "up":  # a caller's table need not be sorted
        at = np.arange(len(k))[::-1].copy() if how == "down" else rs.permutation(len(k))
        k1, ops = k1[torch.tensor(at)], ops[at]
    return {"k1": k1, "ops": torch.tensor(ops, dtype=torch.float64 if spec.get("ops64") else k1.dtype), "coherence": None}


def coherence_rows(c):
    rs = np.random.RandomState(c["seed"] & 0x7FFFFFFF)
    seps = np.cumsum(rs.uniform(0.5, 3.0, c["nsep"])).round(4)
    freqs = np.cumsum(rs.uniform(0.01, 0.2, c["nfreq"])).round(6)
    rows = []
    for i in range(c["nsep"]):
        for j in range(c["nfreq"]):
            rows.append((i, j, float(seps[i]), float(freqs[j]), *(float(x) for x in rs.rand(3).round(6))))
    return rows


def write_coherence(path, rows, header=True):
    with open(path, "w") as f:
        f.write("# simulated coherence measurements\n# columns below\n")
        f.write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\n")
        for r in rows:
            f.write(" ".join(repr(x) for x in r) + "\n")


def start(pb, spec, salt=0):
    pb.parameters = weights(spec, len(pb.parameters), salt)
    return pb


def run(pb, spec, cohfile=None, d=None, comment=None):
    import torch

    kw = {"optimizer_class": torch.optim.Adam} if spec["adam"] else {}
    if comment:
        kw["tb_comment"] = comment
    if cohfile:
        kw["coherence_data_file"] = cohfile
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return pb.calibrate(data=d if d is not None else data(spec), **kw)


def snapshot(pb):
    return np.array(pb.parameters, copy=True)


def evaluate(pb, spec):
    return np.array(pb.eval(k1_data(spec)), copy=True)


def shaky(solve, start, same):
    """True if the fit magnifies rounding errors: started a few units in the last place away, it already ends elsewhere.

    Such a fit cannot tell a history apart from a different memory alignment, so a difference in it proves nothing.
    """
    from . import seams

    eps = 1e-6 if start.dtype == np.float32 else 1e-14
    for s in range(6):
        rs = np.random.RandomState(s)
        near = (start * (1 + eps * rs.uniform(-1, 1, start.shape)) + eps * rs.uniform(-1, 1, start.shape)).astype(start.dtype)
        if not same(seams.in_fork(solve, near)):
            return True
    return False


def events_in(raw, scratch):
    """Scalar records of one log file's bytes."""
    p = os.path.join(scratch, "one.tfevents")
    with open(p, "wb") as f:
        f.write(raw)
    return _records(p)


def _records(p):
    from tensorboard.backend.event_processing.event_file_loader import LegacyEventFileLoader

    recs = []
    for e in LegacyEventFileLoader(p).Load():
        if e.HasField("summary"):
            for v in e.summary.value:
                val = v.simple_value if v.HasField("simple_value") else (v.tensor.float_val[0] if len(v.tensor.float_val) else None)
                recs.append((v.tag, int(e.step), val))
    return recs


def events(logdir):
    """All scalar records on disk: {run dir/file: [(tag, step, value)]}, truncated tails tolerated."""
    out = {}
    for base, _, files in os.walk(logdir):
        for f in sorted(files):
            if "tfevents" in f:
                p = os.path.join(base, f)
                out[os.path.relpath(p, logdir)] = _records(p)
    return out


def warm():
    import contextlib
    import io
    import tempfile

    import pandas  # noqa: F401
    import tensorboard.backend.event_processing.event_file_loader  # noqa: F401

    from .core import Rng

    s = rng_spec(Rng(5))
    s.update(kind="TAUNET", epochs=1, coh=None, adam=False, double=False)
    with contextlib.redirect_stdout(io.StringIO()), tempfile.TemporaryDirectory(dir=os.environ["DRDSIM_SCRATCH"]) as d:
        for kind in ("MANN_APPROX", "MANN"):
            s["kind"] = kind
            pb = start(build(s, d, d), s)
            pb.eval(k1_data(s))
        # the optimisers import half of torch on first use; no backward() here, gradients are set by hand
        import torch

        for cls in (torch.optim.LBFGS, torch.optim.Adam):
            p = torch.nn.Parameter(torch.ones(3))
            p.grad = torch.ones(3)
            opt = cls([p], lr=0.1, **({"line_search_fn": "strong_wolfe"} if cls is torch.optim.LBFGS else {}))
            sch = torch.optim.lr_scheduler.CosineAnnealingLR(opt, T_max=3)
            opt.zero_grad()
            p.grad = torch.ones(3)
            opt.step(lambda p=p: (p.detach() ** 2).sum())
            sch.step()
        # no calibrate here: tensorboard's writer thread must not exist in the parent of forked runs
