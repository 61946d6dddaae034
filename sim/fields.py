"""Specs, construction and reference model for the wind-field side of the package."""

import math
import warnings

import numpy as np

TOL = 3e-4  # relative to the reference's largest magnitude; single-precision FFTs of any engine stay well inside


def rng_spec(rng, models=("Mann", "Mann", "VK"), two_d=0.3, big=False, drd=0.0):
    """A small but shape-diverse generator configuration, as plain JSON."""
    lv = [rng.randrange(2, 5 if not big else 6), rng.randrange(1, 4), rng.randrange(1, 4)]
    if rng.chance(0.04):
        lv = rng.pick([[rng.randrange(5, 7), 1, 2], [2, rng.randrange(4, 6), 2], [2, 2, rng.randrange(4, 6)]])
    dims = [round(rng.uniform(20, 300), 2), round(rng.uniform(20, 200), 2), round(rng.uniform(20, 200), 2)]
    if rng.chance(0.15):
        dims = [int(x) for x in dims]
    dx, dy, dz = (dims[i] / (2 ** lv[i] + 1) for i in range(3))
    nb = rng.randrange(1, 7)
    gamma = round(rng.uniform(0.3, 4.0), 3)
    # length scale such that buffer and margins stay small
    L = min(nb * dx / (3 * gamma), 3.5 * dy, 3.5 * dz) * rng.uniform(0.5, 0.999)
    spec = {
        "model": rng.pick(list(models)),
        "dims": dims,
        "levels": lv,
        "L": round(L, 4),
        "T": gamma,
        "S": round(rng.uniform(0.5, 5.0), 3),
        "ustar": round(rng.uniform(0.2, 1.2), 3),
        "href": round(rng.uniform(30, 200), 2),
        "blend": rng.pick([0, 1, 2, 3, 5, 10]),
        "seed": rng.pick([0, 1, 2**32 - 1, rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(8)]),
        "cfg2d": cfg2d(rng, dims) if rng.chance(two_d) else None,
    }
    if rng.chance(drd):
        from . import calib

        cal = calib.rng_spec(rng, kinds=("TAUNET",))
        spec.update(model="DRD", drd=cal)
        # keep the box small: the trained model's own scales decide buffer and margins (weights move them by at most 11 %)
        Lm, Tm = 1.11 * cal["L"], 1.11 * cal["Gamma"]
        spec["href"] = round(min(spec["href"], 5 * dx / (3 * Tm * Lm), 3 * dy / Lm, 3 * dz / Lm), 5)
    return spec


_MODEL_FILES: dict = {}


def drd_file(spec):
    """The model file a DRD configuration names, written by this process (the content is decided by the configuration)."""
    import json
    import os
    import tempfile

    from . import boot, calib

    key = json.dumps(spec["drd"], sort_keys=True)
    if key not in _MODEL_FILES:
        here = os.getcwd()
        d = tempfile.mkdtemp(prefix="drd", dir=here if here.startswith(boot.scratch_root()) else boot.scratch_root())
        pb = calib.start(calib.build(spec["drd"], None, d), spec["drd"])
        pb.save_model(d)
        _MODEL_FILES[key] = (os.path.join(d, os.listdir(d)[0]), np.array(pb.parameters, dtype=float, copy=True))
    return _MODEL_FILES[key]


def cfg2d(rng, dims=None):
    L2d = round(rng.uniform(300, 2000) if rng.chance(0.88) else rng.uniform(40, 260), 1)  # sometimes narrower than the box
    e1, e2 = rng.randrange(3, 6), rng.randrange(3, 5)
    f1, f2 = rng.pick([1, 2, 3, 4]), rng.pick([1, 2])
    # isotropic computational grid spacing is min(dx, dy): keep the grid small
    while max(f1, 5) / min(f1 / 2**e1, f2 / 2**e2) > 190:
        e1, e2 = max(3, e1 - 1), max(3, e2 - 1)
        if e1 == 3 and e2 == 3:
            break
    return {
        "sigma2": round(rng.uniform(0.3, 3.0), 3),
        "L_2d": L2d,
        "psi": round(rng.uniform(0.15, 1.4), 4),
        "z_i": round(rng.uniform(100, 800), 1),
        "L1_factor": f1,
        "L2_factor": f2,
        "exp1": e1,
        "exp2": e2,
    }


def profile(rng):
    t = rng.pick(["LOG", "PL"])
    z0 = round(rng.uniform(0.001, 1.0), 4)
    return {
        "zref": round(rng.uniform(20, 150), 2),
        "uref": round(rng.uniform(2, 25), 2),
        "z0": z0,
        "windprofiletype": t,
        "plexp": round(rng.uniform(0.05, 0.4), 3) if t == "PL" or rng.chance(0.2) else None,
    }


def profiles(rng, n):
    """Several profiles, some of them differing from an earlier one in a single respect."""
    out = [profile(rng)]
    while len(out) < n:
        p = profile(rng)
        if rng.chance(0.5):
            p = dict(out[-1])
            k = rng.randrange(5)
            if k == 0:
                p["plexp"] = round(rng.uniform(0.05, 0.4), 3)
            elif k == 1:
                p["windprofiletype"] = "PL" if p["windprofiletype"] == "LOG" else "LOG"
                p["plexp"] = p["plexp"] or 0.2
            else:
                key = ["zref", "uref", "z0"][k - 2]
                p[key] = round(p[key] * rng.uniform(0.7, 0.95), 5)
        out.append(p)
    return out


def cfg2d_twist(rng, cfg):
    """The same 2D grid, one physical setting different."""
    c = dict(cfg)
    k = rng.pick(["sigma2", "psi", "z_i", "L_2d", "exp1"])
    if k == "exp1":
        c[k] = max(1, c[k] - 1)
    else:
        c[k] = round(c[k] * (rng.uniform(0.6, 0.95) if k != "L_2d" else rng.uniform(0.9, 0.99)), 4)
    return c


def build(spec, seed="spec", path=None, dims=None, levels=None, cfg=None):
    """dims, levels and cfg, when given, are the caller's own objects, passed on as they are."""
    from drdmannturb.fluctuation_generation import FluctuationFieldGenerator

    if spec["model"] == "DRD" and path is None:
        path = drd_file(spec)[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return FluctuationFieldGenerator(
            friction_velocity=spec["ustar"],
            reference_height=spec["href"],
            grid_dimensions=np.array(spec["dims"]) if dims is None else dims,
            grid_levels=np.array(spec["levels"], dtype=int) if levels is None else levels,
            model=spec["model"],
            length_scale=spec["L"],
            time_scale=spec["T"],
            energy_spectrum_scale=spec["S"],
            path_to_parameters=path,
            seed=spec["seed"] if seed == "spec" else seed,
            blend_num=spec["blend"],
            config_2d_model=cfg if cfg is not None else (dict(spec["cfg2d"]) if spec["cfg2d"] else None),
        )


def gen(g, n, prof):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return g.generate(n, prof["zref"], prof["uref"], prof["z0"], prof["windprofiletype"], prof["plexp"])


def scale(a):
    return float(np.max(np.abs(a))) if a.size else 1.0


def close(a, b, tol=TOL):
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return float(np.max(np.abs(a - b))) <= tol * max(scale(b), 1e-30)


def gap(a, b):
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    if a.size == 0:
        return "empty"
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        return "non-finite values"
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    return f"max difference {d[i]:.6g} at {tuple(int(x) for x in i)} (scale {scale(b):.6g})"


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


# ------------------------------------------------------------------------------------------- reference model


class RefField:
    """Double-precision model of the turbulence box: one noise stream, a window sliding over it, one spectral filter.

    Written from the documentation (Mann 1994 / von Karman, moving-window generation), independent of the package.
    """

    def __init__(self, spec):
        self.spec = spec
        lv = np.array(spec["levels"])
        dims = np.array(spec["dims"], dtype=float)
        self.N = 2**lv + 1
        h = dims / self.N
        self.h = h
        L, T = spec["L"], spec["T"]
        S = spec["S"]
        if spec["model"] == "DRD":
            w = drd_file(spec)[1]
            self.net = w
            L, T = math.exp(w[0]), math.exp(w[1])
            S = 4 * math.pi * L ** (-5 / 3) * math.exp(w[2])
            L *= spec["href"]
        self.L, self.T = L, T
        self.nb = math.ceil(3 * T * L / h[0])
        self.my, self.mz = math.ceil(L / h[1]), math.ceil(L / h[2])
        b = spec["blend"]
        self.extra = max(0, b - 1)
        self.shape = (int(self.N[0]) + 2 * self.nb + self.extra, int(self.N[1]) + 2 * self.my, int(self.N[2]) + 2 * self.mz)
        self.E0 = S * spec["ustar"] ** 2 * spec["href"] ** (-2 / 3)
        self.rs = np.random.RandomState(spec["seed"])
        self.window = None
        self.G = self._filter()

    def _filter(self):
        n, h = self.shape, self.h
        k1, k2, k3 = np.meshgrid(*(2 * np.pi * np.fft.fftfreq(n[i], h[i]) for i in range(3)), indexing="ij")
        L, E0, T = self.L, self.E0, self.T
        kk = k1**2 + k2**2 + k3**2

        def iso(q3):
            q = k1**2 + k2**2 + q3**2
            a = np.sqrt(E0 * L ** (17 / 3) / (4 * np.pi) / (1 + L**2 * q) ** (17 / 6))
            z = np.zeros_like(a)
            return np.array([[z, -a * q3, a * k2], [a * q3, z, -a * k1], [-a * k2, a * k1, z]]), q

        if self.spec["model"] == "VK":
            return 1j * iso(k3)[0]
        from scipy.special import hyp2f1

        with np.errstate(all="ignore"):
            x = kk * L**2
            if self.spec["model"] == "DRD":
                tau = self._lifetime(k1, k2, k3)
            else:
                tau = x ** (-1 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1 / x))
            beta = np.where(kk == 0, 0.0, T * tau)
            k30 = k3 + beta * k1
            M, q0 = iso(k30)
            s = k1**2 + k2**2
            c1 = beta * k1**2 * (q0 - 2 * k30**2 + beta * k1 * k30) / (kk * s)
            c2 = k2 * q0 / s**1.5 * np.arctan2(beta * k1 * np.sqrt(s), q0 - k30 * k1 * beta)
            z1 = np.nan_to_num(c1 - k2 / k1 * c2)
            z2 = np.nan_to_num(k2 / k1 * c1 + c2)
            z3 = np.nan_to_num(q0 / kk)
            G = np.array([[M[0][j] + z1 * M[2][j] for j in range(3)], [M[1][j] + z2 * M[2][j] for j in range(3)], [z3 * M[2][j] for j in range(3)]])
        return 1j * G

    def _lifetime(self, k1, k2, k3):
        """The learned eddy lifetime: multi-layer perceptron with residual connection, then the rational kernel."""
        cal = self.spec["drd"]
        w = self.net[5 if cal["spectrum"] else 3 :]
        a = np.abs(np.stack([k1, k2, k3], -1)) * self.spec["href"]
        sizes = [3] + [cal["hidden"]] * cal["nlayers"] + [3]
        h = a
        for i in range(len(sizes) - 1):
            m, w = w[: sizes[i] * sizes[i + 1]].reshape(sizes[i + 1], sizes[i]), w[sizes[i] * sizes[i + 1] :]
            h = h @ m.T
            if i < len(sizes) - 2:
                h = np.maximum(h, 0)
        nu = float(w[0]) if cal["learn_nu"] else -1 / 3
        x = np.linalg.norm(a + h, axis=-1)
        return x ** (nu - 2 / 3) / (1 + x**2) ** (nu / 2)

    def next_fluctuation(self):
        nx = int(self.N[0])
        std = math.sqrt(float(np.prod(self.h)))
        if self.window is None:
            self.window = self.rs.normal(0, 1, (*self.shape, 3)) * std
        else:
            fresh = self.rs.normal(0, 1, (nx, *self.shape[1:], 3)) * std
            self.window = np.concatenate([self.window[nx:], fresh])
        half = self.shape[2] // 2 + 1
        G = self.G[..., :half]
        nh = np.stack([np.fft.rfftn(self.window[..., c]) for c in range(3)])
        vh = np.einsum("ij...,j...->i...", G, nh)
        u = np.stack([np.fft.irfftn(vh[c], s=self.shape, axes=(0, 1, 2)) for c in range(3)], axis=-1)
        u *= math.sqrt(np.prod(self.shape)) / math.sqrt(np.prod(self.h * np.array(self.shape)))
        u = u[self.nb : self.shape[0] - self.nb]
        u = u[:, self.my : self.shape[1] - self.my, : self.shape[2] - 2 * self.mz]
        return u[: int(self.N[0])]

    def next_block(self, prof):
        u = self.next_fluctuation()
        u = u / math.sqrt(float(np.mean(u**2)))
        z = np.linspace(0.0, self.spec["dims"][2], int(self.N[2]))
        u = u.copy()
        u[..., 0] += mean_profile(z, prof)
        return u


def mean_profile(z, prof):
    if prof["windprofiletype"] == "LOG":
        return prof["uref"] * np.log(z / prof["z0"] + 1.0) / np.log(prof["zref"] / prof["z0"])
    return prof["uref"] * (z / prof["zref"]) ** prof["plexp"]


def overlay(spec, block_index, u1, u2, lf):
    """Linear interpolation of the 2D field under block number block_index, from the documented placement."""
    from scipy.interpolate import RegularGridInterpolator

    N = 2 ** np.array(spec["levels"]) + 1
    Lx, Ly = spec["dims"][0], spec["dims"][1]
    x = block_index * Lx + np.arange(N[0]) * Lx / N[0]
    W = lf["L2_factor"] * lf["L_2d"]
    y = W / 2 - Ly / 2 + np.arange(N[1]) * Ly / N[1]
    xs = np.arange(u1.shape[0]) * (lf["L1_factor"] * lf["L_2d"]) / u1.shape[0]
    ys = np.arange(u1.shape[1]) * W / u1.shape[1]
    pts = np.stack(np.meshgrid(x, y, indexing="ij"), -1)
    out = [RegularGridInterpolator((xs, ys), u, bounds_error=False, fill_value=0.0)(pts) for u in (u1, u2)]
    # points that sit on the rim of the 2D field up to rounding may legitimately fall on either side of it
    eps = 1e-6
    rim = np.zeros(pts.shape[:2], dtype=bool)
    for c, a, w in ((0, xs, lf["L1_factor"] * lf["L_2d"]), (1, ys, W)):
        for e in (a[0], a[-1]):
            rim |= np.abs(pts[..., c] - e) < eps * w
    return out[0], out[1], rim


def warm(two_d=True):
    """Compile and import everything once in the parent so that forks start from the same warm state."""
    import pyevtk.hl  # noqa: F401
    import pyfftw  # noqa: F401

    spec = {"model": "Mann", "dims": [30.0, 30.0, 30.0], "levels": [2, 1, 1], "L": 3.0, "T": 1.0, "S": 1.0, "ustar": 0.5,
            "href": 50.0, "blend": 0, "seed": 1,
            "cfg2d": {"sigma2": 1.0, "L_2d": 500.0, "psi": 0.7, "z_i": 300.0, "L1_factor": 1, "L2_factor": 1, "exp1": 3, "exp2": 3} if two_d else None}
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        g = build(spec)
        gen(g, 1, {"zref": 50.0, "uref": 5.0, "z0": 0.1, "windprofiletype": "LOG", "plexp": None})
