"""Process bootstrap: environment, import of the code under test from the working tree, scratch space."""

import atexit
import os
import shutil
import signal
import subprocess
import sys
import tempfile

REPO = os.environ.get("DRDSIM_REPO", "/repo")
PKG = os.path.join(REPO, "drdmannturb")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"

#: Everything that could leak nondeterminism into the code under test through the environment is pinned here.
PINNED = {
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
    "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}


def reexec(need_shim: bool) -> None:
    """Start the interpreter over under the pinned environment, with the disk seam preloaded when asked for."""
    if os.environ.get("DRDSIM_CHILD") == "1":
        return
    scratch = tempfile.mkdtemp(prefix="drdsim.", dir="/tmp")
    env = dict(os.environ)
    env.update(PINNED)
    env.setdefault("PYTHONHASHSEED", "0")
    env["DRDSIM_CHILD"] = "1"
    env["DRDSIM_SCRATCH"] = scratch
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["HOME"] = scratch
    env.pop("PYTHONPATH", None)
    os.makedirs(env["MPLCONFIGDIR"])
    code = 2
    proc = None

    def stop(signum, frame):
        if proc is not None:
            proc.send_signal(signal.SIGTERM)
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)

    signal.signal(signal.SIGTERM, stop)
    try:
        if need_shim:
            so = os.path.join(scratch, "iofault.so")
            subprocess.run(
                ["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "sim", "iofault.c"), "-ldl"], check=True
            )
            env["LD_PRELOAD"] = so
            env["DRDSIM_SHIM"] = so
        exe = PYTHON if os.path.exists(PYTHON) else sys.executable
        proc = subprocess.Popen([exe, "-W", "ignore", "-X", "faulthandler", *sys.argv], env=env, cwd=VERIF)
        code = proc.wait()
        if code < 0:
            print(f"HARNESS-ERROR simulator process died on signal {-code}", flush=True)
            code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def scratch_root() -> str:
    return os.environ["DRDSIM_SCRATCH"]


def load() -> None:
    """Import the working tree's package (never an installed copy)."""
    sys.path.insert(0, REPO)
    import drdmannturb

    where = os.path.dirname(os.path.abspath(drdmannturb.__file__))
    if where != PKG:
        raise RuntimeError(f"imported {where}, expected {PKG}")
    import drdmannturb.fluctuation_generation  # noqa: F401
    import drdmannturb.spectra_fitting  # noqa: F401
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import matplotlib.pyplot as plt

    plt.ioff()


atexit.register(lambda: None)
