"""Other interpreters: processes started from nothing, with another hash seed, directory, locale, time zone and user environment.

A reference computed in one of them shares no state with the run that asks for it, not even what a forked copy would
inherit (hash randomisation, interned objects, import order, environment). Each is started once per check and forks a
child per request, so that a request costs about as much as a local fork.
"""

import ctypes
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys

from . import boot

#: what differs between the interpreters (index = which one a plan asks for)
WORLDS = [
    {"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo", "LC_ALL": "C", "USER": "alice", "LOGNAME": "alice"},
    {"PYTHONHASHSEED": "424242", "TZ": "America/New_York", "LC_ALL": "C.UTF-8", "USER": "bob", "LOGNAME": "bob"},
]

_paths: list[str] = []


def start(prop_id: str) -> None:
    """Start the interpreters; they get ready while the caller warms up itself."""
    for i, world in enumerate(WORLDS):
        home = os.path.join(boot.scratch_root(), f"world{i}")
        os.makedirs(os.path.join(home, "cwd", "mpl"), exist_ok=True)
        path = os.path.join(home, "sock")
        env = dict(os.environ, **world, HOME=home, MPLCONFIGDIR=os.path.join(home, "cwd", "mpl"), DRDSIM_WORLD=str(i))
        for k in ("LD_PRELOAD", "DRDSIM_SHIM"):
            env.pop(k, None)
        null = open(os.devnull, "w")
        subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(boot.VERIF, "check.py"), "--zygote", path, prop_id],
            env=env, cwd=os.path.join(home, "cwd"), stdin=subprocess.DEVNULL, stdout=null, stderr=null,
        )
        _paths.append(path)


def _recv(sock):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            c = sock.recv(min(1 << 20, n - len(buf)))
            if not c:
                raise ConnectionError("other interpreter hung up")
            buf += c
        return buf

    return pickle.loads(exactly(struct.unpack("<q", exactly(8))[0]))


def _send(sock, obj):
    data = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<q", len(data)) + data)


def call(world: int, module: str, fn: str, *args, timeout=150.0):
    """Result of sim.props.<module>.<fn>(*args, ctx) computed by another interpreter; raises like seams.in_fork."""
    from . import seams
    from .core import Violation

    end = seams._REAL_MONOTONIC() + timeout
    path = _paths[world % len(_paths)]
    s = socket.socket(socket.AF_UNIX)
    while True:
        try:
            s.connect(path)
            break
        except (FileNotFoundError, ConnectionRefusedError):
            if seams._REAL_MONOTONIC() > end:
                raise RuntimeError("the other interpreter did not start") from None
            seams._REAL_SLEEP(0.05)
    s.settimeout(timeout)
    try:
        _send(s, (module, fn, args, os.getcwd()))
        kind, *rest = _recv(s)
    except TimeoutError:
        raise Violation("no-progress", f"operation made no progress within {timeout} s in another interpreter") from None
    finally:
        s.close()
    if kind == "ok":
        return rest[0]
    if kind == "violation":
        raise Violation(*rest)
    name, text, blame = rest
    if blame:
        raise Violation(f"unexpected-{name}", text)
    raise RuntimeError(text)


def serve(path: str, prop) -> None:
    """Body of one interpreter."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the simulator
    if os.getppid() == 1:
        return
    boot.load()
    if hasattr(prop, "warm"):
        prop.warm()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(64)
    os.rename(path + ".tmp", path)
    while True:
        conn, _ = srv.accept()
        if os.fork() == 0:
            srv.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                _answer(conn)
            finally:
                os._exit(0)
        conn.close()


def _answer(conn):
    import tempfile
    import traceback

    from .core import Ctx, Violation, _blame, _reset_globals

    module, fn, args, _cwd = _recv(conn)
    with tempfile.TemporaryDirectory(dir=boot.scratch_root()) as d:
        os.chdir(d)
        _reset_globals({"env_seed": 77 + int(os.environ["DRDSIM_WORLD"])})
        try:
            out = ("ok", getattr(importlib.import_module(f"sim.props.{module}"), fn)(*args, Ctx(d)))
        except Violation as v:
            out = ("violation", v.cls, v.msg)
        except BaseException as e:  # noqa: BLE001
            out = ("error", type(e).__name__, "".join(traceback.format_exception(e))[-2500:], _blame(e))
        _send(conn, out)
        os.chdir("/")

