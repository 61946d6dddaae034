"""Seams: everything nondeterministic the package touches, put under the plan's control from outside the package.

Nothing here edits /repo. Module attributes of third-party libraries and the standard library are replaced inside the
forked process of one run, so every replacement dies with the run.
"""

import contextlib
import dis
import errno
import os
import pickle
import random
import signal
import sys
import threading

import numpy as np

from . import boot
from .core import Violation


def in_pkg(code) -> bool:
    return code.co_filename.startswith(boot.PKG)


# ------------------------------------------------------------------------------------------- pristine references


class ForkResult:
    def __init__(self, value=None, error=None, code=0):
        self.value, self.error, self.code = value, error, code


def in_fork(fn, *args, raw=False, timeout=150):
    """Run fn in a forked copy of this process and return its (picklable) result: a reference untouched by this run.

    With raw=True the outcome (including a simulated crash, exit code 77) is returned instead of raised.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                data = pickle.dumps(("ok", fn(*args)), protocol=4)
            except BaseException as e:  # noqa: BLE001
                blame = False
                tb = e.__traceback__
                while tb is not None:
                    blame = blame or in_pkg(tb.tb_frame.f_code)
                    tb = tb.tb_next
                import traceback

                if isinstance(e, Violation):
                    data = pickle.dumps(("violation", e.cls, e.msg))
                else:
                    data = pickle.dumps(("error", type(e).__name__, "".join(traceback.format_exception(e))[-2500:], blame))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            code = 9
        os._exit(code)
    os.close(w)
    chunks = []
    import select
    import time

    end = _REAL_MONOTONIC() + timeout
    hung = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - _REAL_MONOTONIC()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            hung = True
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    del time
    if hung:
        raise Violation("no-progress", f"operation made no progress within {timeout} s")
    data = b"".join(chunks)
    if not data:
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        if raw:
            return ForkResult(code=code)
        raise RuntimeError(f"reference process ended without a result (status {code})")
    kind, *rest = pickle.loads(data)
    if kind == "ok":
        return ForkResult(value=rest[0]) if raw else rest[0]
    if kind == "violation":
        raise Violation(*rest)
    if raw:
        return ForkResult(error=tuple(rest))
    name, text, blame = rest
    if blame:
        raise Violation(f"unexpected-{name}", text)
    raise RuntimeError(text)


import time as _time  # noqa: E402

_REAL_MONOTONIC = _time.monotonic
_REAL_SLEEP = _time.sleep


# ------------------------------------------------------------------------------------------- FFT planner seam


class FFTSeam:
    """pyfftw.FFTW under the plan's control.

    The planner's choice (which is timing-dependent with FFTW_MEASURE) is replaced by a deterministic one, or by a
    different engine and thread count chosen by the plan; planning and execution overwrite whatever the FFTW
    documentation allows them to overwrite.
    """

    def __init__(self, ctx, engine="estimate", threads=1, poison=True, fail_at=None, fail_exc=MemoryError):
        self.ctx, self.engine, self.threads, self.poison = ctx, engine, threads, poison
        self.fail_at, self.fail_exc = fail_at, fail_exc
        self.execs = 0
        self.plans = 0
        self.on_exec = None
        self.rs = np.random.RandomState(12345)

    def _garbage(self, a):
        if self.poison and a.flags.writeable:
            a[...] = self.rs.uniform(-1e3, 1e3, a.shape)

    def install(self):
        import pyfftw

        real = pyfftw.FFTW
        seam = self

        class SimFFTW:
            def __init__(self, input_array, output_array, axes=(-1,), direction="FFTW_FORWARD", flags=("FFTW_MEASURE",),
                         threads=1, planning_timelimit=None, normalise_idft=True, ortho=False):
                seam.plans += 1
                keep = tuple(f for f in flags if f not in ("FFTW_MEASURE", "FFTW_PATIENT", "FFTW_EXHAUSTIVE"))
                if "FFTW_ESTIMATE" not in keep:
                    keep = keep + ("FFTW_ESTIMATE",)
                self._destroys = "FFTW_DESTROY_INPUT" in flags
                # complex-to-real over several axes destroys its input whatever the flags say
                if np.iscomplexobj(input_array) and not np.iscomplexobj(output_array) and len(tuple(axes)) > 1:
                    self._destroys = True
                self._args = dict(axes=axes, direction=direction)
                kw = {}
                if ortho:
                    kw["ortho"] = True
                if not normalise_idft:
                    kw["normalise_idft"] = False
                self._real = real(input_array, output_array, axes=axes, direction=direction, flags=keep,
                                  threads=seam.threads, **kw)
                self._normalise = normalise_idft
                self._ortho = ortho
                self._dir = direction
                self._axes = tuple(int(a) for a in axes)
                if "FFTW_ESTIMATE" not in flags and "FFTW_WISDOM_ONLY" not in flags:
                    seam._garbage(input_array)
                    seam._garbage(output_array)

            def _pre(self):
                n = seam.execs
                seam.execs += 1
                if seam.on_exec:
                    seam.on_exec("fft")
                if seam.fail_at is not None and n == seam.fail_at:
                    seam.ctx.fault("fft-failure")
                    raise seam.fail_exc("simulated FFT failure")

            def _post(self):
                if self._destroys:
                    seam._garbage(self._real.input_array)
                if seam.on_exec:
                    seam.on_exec("fft-done")

            def __call__(self, input_array=None, output_array=None, normalise_idft=None, ortho=None):
                self._pre()
                if input_array is not None or output_array is not None or ortho or self._ortho or seam.engine == "estimate":
                    kw = {}
                    if normalise_idft is not None:
                        kw["normalise_idft"] = normalise_idft
                    if ortho is not None:
                        kw["ortho"] = ortho
                    out = self._real(input_array, output_array, **kw)
                else:
                    norm = self._normalise if normalise_idft is None else normalise_idft
                    out = self._other(norm)
                self._post()
                return out

            def _other(self, norm):
                x, y = self._real.input_array, self._real.output_array
                import scipy.fft as sf

                lib = sf if seam.engine == "scipy" else np.fft
                wide = seam.engine == "numpy"
                xin = x.astype(np.result_type(x.dtype, np.complex128 if np.iscomplexobj(x) else np.float64)) if wide else x
                if self._dir in ("FFTW_FORWARD", -1):
                    f = lib.fftn if np.iscomplexobj(x) else lib.rfftn
                    res = f(xin, axes=self._axes)
                else:
                    shp = [y.shape[a] for a in self._axes]
                    res = lib.ifftn(xin, axes=self._axes) if np.iscomplexobj(y) else lib.irfftn(xin, s=shp, axes=self._axes)
                    if not norm:
                        res = res * np.prod(shp)
                y[...] = res
                return y

            def execute(self):
                self._pre()
                self._real.execute()
                self._post()

            def __getattr__(self, name):
                return getattr(self._real, name)

        pyfftw.FFTW = SimFFTW
        rebind(real, SimFFTW)
        return self


def rebind(old, new):
    """Replace every module-level alias of `old` inside the package under test."""
    for name, mod in list(sys.modules.items()):
        if name == "drdmannturb" or name.startswith("drdmannturb."):
            for k, v in list(vars(mod).items()):
                if v is old:
                    setattr(mod, k, new)


def dirty_memory(ctx, seed):
    """Uninitialised allocations made by the package contain garbage chosen by the plan."""
    import pyfftw

    rs = np.random.RandomState(seed & 0x7FFFFFFF)
    real = {"empty": np.empty, "empty_like": np.empty_like, "aligned": pyfftw.empty_aligned}

    def fill(a):
        if isinstance(a, np.ndarray) and a.dtype.kind in "fc" and a.size:
            a[...] = rs.uniform(-1e4, 1e4, a.shape)
            ctx.fault("dirty-memory")
        return a

    def mk(f):
        def g(*a, **k):
            out = f(*a, **k)
            return fill(out) if in_pkg(sys._getframe(1).f_code) else out

        return g

    np.empty, np.empty_like, pyfftw.empty_aligned = mk(real["empty"]), mk(real["empty_like"]), mk(real["aligned"])
    import torch

    te, tel = torch.empty, torch.empty_like

    def tmk(f):
        def g(*a, **k):
            out = f(*a, **k)
            if in_pkg(sys._getframe(1).f_code) and out.is_floating_point() and out.numel():
                with torch.no_grad():
                    out.copy_(torch.from_numpy(rs.uniform(-1e4, 1e4, tuple(out.shape))).to(out.dtype))
                ctx.fault("dirty-memory")
            return out

        return g

    torch.empty, torch.empty_like = tmk(te), tmk(tel)


# ------------------------------------------------------------------------------------------- clock


class Clock:
    """Virtual time: every read advances by a plan-chosen step; jumps (either direction) happen at chosen reads."""

    def __init__(self, ctx, start=1.7e9, seed=0, jump_p=0.0, max_jump=1e5, tick=1e-3):
        self.ctx = ctx
        self.t = start
        self.mono = 1000.0
        self.rng = random.Random(seed)
        self.jump_p, self.max_jump, self.tick = jump_p, max_jump, tick
        self.reads = 0
        self.jumps = 0

    def _advance(self, wall):
        self.reads += 1
        d = self.rng.random() * self.tick * 2
        self.mono += d
        self.t += d
        self.ctx.sim_seconds += d
        if wall and self.jump_p and self.rng.random() < self.jump_p:
            j = self.rng.uniform(-self.max_jump, self.max_jump)
            self.t = max(1.0, self.t + j)
            self.jumps += 1
            self.ctx.sim_seconds += abs(j)
            self.ctx.faults["clock-jump"] = self.ctx.faults.get("clock-jump", 0) + 1

    def wall(self):
        self._advance(True)
        return self.t

    def monotonic(self):
        self._advance(False)
        return self.mono

    def sleep(self, s):
        self.t += max(0.0, s)
        self.mono += max(0.0, s)
        self.ctx.sim_seconds += max(0.0, s)

    def install(self):
        import datetime as dt
        import time

        rep = {
            "time": self.wall,
            "time_ns": lambda: int(self.wall() * 1e9),
            "perf_counter": self.monotonic,
            "perf_counter_ns": lambda: int(self.monotonic() * 1e9),
            "monotonic": self.monotonic,
            "monotonic_ns": lambda: int(self.monotonic() * 1e9),
            "process_time": self.monotonic,
            "sleep": self.sleep,
        }
        for k, v in rep.items():
            old = getattr(time, k)
            setattr(time, k, v)
            rebind(old, v)
        clock = self
        real_dt = dt.datetime

        class SimDateTime(real_dt):
            @classmethod
            def now(cls, tz=None):
                return real_dt.fromtimestamp(clock.wall(), tz)

            @classmethod
            def utcnow(cls):
                return real_dt.fromtimestamp(clock.wall(), dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return real_dt.fromtimestamp(clock.wall())

        dt.datetime = SimDateTime
        rebind(real_dt, SimDateTime)
        return self


# ------------------------------------------------------------------------------------------- machine and user


def machine(ctx, cpus, seed):
    """Another machine as far as the process can tell: processor count, host name, process number, user, directory."""
    import multiprocessing
    import platform
    import socket

    rng = random.Random(seed)
    pid, node = rng.randrange(2, 60000), f"node{rng.randrange(1000)}"
    for mod, name, fn in (
        (os, "cpu_count", lambda: cpus),
        (multiprocessing, "cpu_count", lambda: cpus),
        (os, "sched_getaffinity", lambda _pid: set(range(cpus))),
        (os, "getpid", lambda: pid),
        (platform, "node", lambda: node),
        (socket, "gethostname", lambda: node),
    ):
        old = getattr(mod, name)
        setattr(mod, name, fn)
        rebind(old, fn)
    os.environ["USER"] = os.environ["LOGNAME"] = rng.choice(["root", "u1", "someone"])
    where = os.path.join(os.getcwd(), f"w{rng.randrange(1000)}")
    os.makedirs(where, exist_ok=True)
    os.chdir(where)
    ctx.fault("other-machine")


# ------------------------------------------------------------------------------------------- directory order


def own_mount(ctx, home):
    """`home` is a filesystem of its own: nothing can be renamed or linked into it from elsewhere, as on a data disk or network share."""
    home = os.path.realpath(home) + os.sep
    real = {n: getattr(os, n) for n in ("rename", "replace", "link")}

    def inside(p):
        return (os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p)))) + os.sep).startswith(home)

    def wrap(name):
        def f(src, dst, **k):
            if inside(src) != inside(dst):
                ctx.fault("cross-device")
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), str(src), None, str(dst))
            return real[name](src, dst, **k)

        return f

    for n in real:
        setattr(os, n, wrap(n))


def shuffle_dirs(ctx, seed):
    """Directory enumeration order is the filesystem's choice; here it is the plan's."""
    rng = random.Random(seed)
    real_ls, real_sd = os.listdir, os.scandir

    def listdir(path="."):
        out = sorted(real_ls(path))
        rng.shuffle(out)
        ctx.probe("listdir")
        return out

    class It:
        def __init__(self, entries):
            self.e = iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.e)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    def scandir(path="."):
        with real_sd(path) as it:
            out = sorted(it, key=lambda e: e.name)
        rng.shuffle(out)
        ctx.probe("scandir")
        return It(out)

    os.listdir, os.scandir = listdir, scandir
    rebind(real_ls, listdir)
    rebind(real_sd, scandir)


# ------------------------------------------------------------------------------------------- tensorboard's writer thread


class SimAsyncWriter:
    """Stands in for tensorboard's queue + writer thread; the plan decides when the 'thread' gets to run."""

    policy = None  # set by install_writer

    def __init__(self, record_writer, max_queue_size=20, flush_secs=120):
        self._w = record_writer
        self._q = []
        self._max = max_queue_size
        self._closed = False
        self._p = SimAsyncWriter.policy
        self._p["writers"].append(self)

    def _drain(self, n):
        for _ in range(min(n, len(self._q))):
            self._w.write(self._q.pop(0))

    def write(self, bytestring):
        if self._closed:
            raise OSError("Writer is closed")
        if len(self._q) >= self._max:  # queue.put would block until the thread makes room
            self._drain(1)
        self._q.append(bytestring)
        p = self._p
        p["stats"]["queued"] += 1
        if p["mode"] == "eager":
            self._drain(len(self._q))
            self._w.flush()
        elif p["mode"] == "random":
            self._drain(p["rng"].randrange(0, 4))
            if p["rng"].random() < 0.05:
                self._w.flush()
        else:  # stalled: the thread is not scheduled at all
            p["stats"]["stalled"] += 1

    def flush(self):
        if self._closed:
            raise OSError("Writer is closed")
        self._drain(len(self._q))
        self._w.flush()

    def close(self):
        if not self._closed:
            self._closed = True
            self._drain(len(self._q))
            self._w.flush()
            self._w.close()


def install_writer(ctx, mode, seed=0):
    import tensorboard.summary.writer.event_file_writer as efw

    SimAsyncWriter.policy = {"mode": mode, "rng": random.Random(seed), "writers": [], "stats": {"queued": 0, "stalled": 0}}
    efw._AsyncWriter = SimAsyncWriter
    ctx.fault(f"writer-{mode}")
    return SimAsyncWriter.policy


# ------------------------------------------------------------------------------------------- interrupts


_CALLS = {"CALL", "CALL_FUNCTION_EX", "CALL_INTRINSIC_1", "CALL_KW"}
_OPNAMES: dict = {}


def _ops(code):
    m = _OPNAMES.get(code)
    if m is None:
        m = {i.offset: i.opname for i in dis.get_instructions(code)}
        _OPNAMES[code] = m
    return m


class Interruptor:
    """Counts, and optionally fires at one of, the places where CPython 3.12 can run a signal handler in package code:
    function entry, after a call returned, and backward jumps. `what` is an exception class or 'kill'."""

    def __init__(self, at=None, what=KeyboardInterrupt):
        self.at, self.what = at, what
        self.n = 0
        self.fired = None
        self.prev = {}

    def _point(self, frame):
        me = self.n
        self.n += 1
        if self.at is not None and me == self.at and self.fired is None:
            self.fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
            if self.what == "kill":
                os._exit(77)
            raise self.what("injected")

    def _trace(self, frame, event, arg):
        if not in_pkg(frame.f_code):
            return None
        if event == "call":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            self.prev[id(frame)] = None
            self._point(frame)
        elif event == "opcode":
            ops = _ops(frame.f_code)
            prev = self.prev.get(id(frame))
            self.prev[id(frame)] = frame.f_lasti
            if prev is not None:
                name = ops.get(prev, "")
                if name in _CALLS or name.startswith("JUMP_BACKWARD"):
                    self._point(frame)
        elif event == "return":
            self.prev.pop(id(frame), None)
        return self._trace

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ------------------------------------------------------------------------------------------- threads


class Scheduler:
    """Runs callables in real threads, exactly one at a time; switches only at package-code points, as the plan says.

    `switches` is a list of [gap, who]: after `gap` further points, control passes to the who-th runnable thread.
    """

    def __init__(self, ctx, switches):
        self.ctx = ctx
        self.switches = [list(s) for s in switches]
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else None
        self.cv = threading.Condition()
        self.turn = None
        self.alive: list[int] = []
        self.steps = 0
        self.taken = 0
        self.errors: dict[int, BaseException] = {}
        self.results: dict[int, object] = {}
        self.trace_log: list[str] = []
        self.tls = threading.local()

    def point(self, where="op"):
        me = getattr(self.tls, "me", None)
        if me is None:
            return
        with self.cv:
            self.steps += 1
            if self.left is None:
                return
            if self.left > 0:
                self.left -= 1
                return
            _, who = self.switches[self.pos]
            self.pos += 1
            self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else None
            nxt = self.alive[who % len(self.alive)]
            if nxt != me:
                self.taken += 1
                self.turn = nxt
                self.cv.notify_all()
                self._wait(me)

    def _wait(self, me):
        seen = self.steps
        while self.turn != me:
            if not self.cv.wait(20.0) and self.steps == seen and self.turn != me:
                # the running thread is stuck behind something a parked thread holds: let this one go
                self.ctx.probe("scheduler-unstuck")
                self.turn = me
                break
            seen = self.steps

    def _trace(self, frame, event, arg):
        if not in_pkg(frame.f_code):
            return None
        if event == "call":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            self.tls.prev[id(frame)] = None
            self.point()
        elif event == "opcode":
            prev = self.tls.prev.get(id(frame))
            self.tls.prev[id(frame)] = frame.f_lasti
            if prev is not None:
                name = _ops(frame.f_code).get(prev, "")
                if name in _CALLS or name.startswith("JUMP_BACKWARD") or name.startswith("STORE_"):
                    self.point()
        elif event == "return":
            self.tls.prev.pop(id(frame), None)
        return self._trace

    def _body(self, i, fn):
        self.tls.me = i
        self.tls.prev = {}
        with self.cv:
            self._wait_start(i)
        try:
            sys.settrace(self._trace)
            self.results[i] = fn()
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        finally:
            sys.settrace(None)
            with self.cv:
                k = self.alive.index(i)
                self.alive.remove(i)
                if self.alive:
                    self.turn = self.alive[k % len(self.alive)]
                else:
                    self.turn = -1
                self.cv.notify_all()

    def _wait_start(self, me):
        while self.turn != me:
            self.cv.wait(3.0)

    def run(self, fns):
        self.alive = list(range(len(fns)))
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        with self.cv:
            self.turn = 0
            self.cv.notify_all()
        for t in threads:
            t.join()
        self.ctx.schedule_points += self.steps
        self.ctx.fault("preemption", self.taken)
        return self.results, self.errors


# ------------------------------------------------------------------------------------------- disk


class Disk:
    """Python face of the preloaded disk seam."""

    OP = dict(open=1, write=2, fsync=3, rename=4, unlink=5, trunc=6, close=7, read=8, mkdir=9, link=10)
    KIND = dict(none=0, err=1, short=2, full=3, crash_before=4, crash_after=5, crash_torn=6, eintr=7)

    def __init__(self):
        import ctypes

        so = os.environ.get("DRDSIM_SHIM")
        if not so:
            raise RuntimeError("disk seam not preloaded")
        self.lib = ctypes.CDLL(so)
        self.lib.sim_io_arm.argtypes = [
            ctypes.c_char_p, ctypes.c_char_p, ctypes.c_uint, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_long,
        ]
        self.lib.sim_io_seq.restype = ctypes.c_long
        self.lib.sim_io_fired.restype = ctypes.c_long

    def arm(self, root, ops, at=-1, kind="none", err=5, frac=0.5, chunk=0, log=""):
        mask = 0
        for o in ops:
            mask |= 1 << self.OP[o]
        self.lib.sim_io_arm(root.encode(), log.encode(), mask, at, self.KIND[kind], err, float(frac), chunk)

    def disarm(self):
        n = (self.lib.sim_io_seq(), self.lib.sim_io_fired())
        self.lib.sim_io_disarm()
        return n

    @property
    def seq(self):
        return self.lib.sim_io_seq()

    @property
    def fired(self):
        return self.lib.sim_io_fired()


@contextlib.contextmanager
def global_noise(seed):
    """Other code in the same process consuming and reseeding the global random streams."""
    rng = random.Random(seed)

    def stir():
        import torch

        k = rng.randrange(5)
        if k == 0:
            np.random.seed(rng.getrandbits(32))
        elif k == 1:
            np.random.normal(size=rng.randrange(1, 50))
        elif k == 2:
            torch.manual_seed(rng.getrandbits(31))
        elif k == 3:
            torch.rand(rng.randrange(1, 20))
        else:
            random.random()

    yield stir
