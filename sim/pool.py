"""A process pool under the plan's control.

Workers are real forked processes with their own memory, fed one task at a time over pipes; which worker takes a task,
how long it takes in virtual time, in which order results come back, which worker fails or dies and when is decided by
the plan. A thread pool is simulated too, with tasks that share memory. Futures are real ``concurrent.futures.Future`` objects, so any way of waiting for them works.
"""

import concurrent.futures as cf
import os
import pickle
import random
import struct
import threading
import traceback
from concurrent.futures.process import BrokenProcessPool

import numpy as np

from . import seams

_REAL = {k: getattr(cf, k) for k in ("ProcessPoolExecutor", "ThreadPoolExecutor", "as_completed", "wait")}


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data) :]


def _recv(fd):
    def take(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    (n,) = struct.unpack(">I", take(4))
    return pickle.loads(take(n))


class RemoteError(Exception):
    pass


class Worker:
    """One worker process. It keeps its memory between tasks, as a real pool worker does."""

    def __init__(self, others, spawn_seed):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for o in others:
                    os.close(o.w)
                    os.close(o.r)
                self._serve(r1, w2, spawn_seed)
            except BaseException:  # noqa: BLE001
                pass
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.alive = True

    @staticmethod
    def _serve(r, w, spawn_seed):
        if spawn_seed is not None:
            np.random.seed(spawn_seed)
        while True:
            blob, fault = _recv(r)
            state = np.random.get_state()
            try:
                fn, args, kw = pickle.loads(blob)
                if fault == "die":
                    os._exit(9)
                if fault == "raise":
                    raise MemoryError("simulated: cannot allocate")
                if fault == "fft":
                    real = np.fft.ifft2

                    def bad(*a, **k):
                        raise MemoryError("simulated: transform cannot allocate")

                    np.fft.ifft2 = bad
                    try:
                        val = fn(*args, **kw)
                    finally:
                        np.fft.ifft2 = real
                else:
                    val = fn(*args, **kw)
                out = ("ok", pickle.dumps(val), state)
            except BaseException as e:  # noqa: BLE001
                text = "".join(traceback.format_exception(e))[-1500:]
                try:
                    pickle.loads(pickle.dumps(e))
                except Exception:  # noqa: BLE001
                    e = RemoteError(repr(e))
                out = ("error", e, text, state)
            _send(w, out)

    def run(self, blob, fault):
        try:
            _send(self.w, (blob, fault))
            return _recv(self.r)
        except (EOFError, BrokenPipeError):
            self.close()
            return ("dead",)

    def close(self):
        if self.alive:
            self.alive = False
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)


class SimFuture(cf.Future):
    def __init__(self, pool):
        super().__init__()
        self.pool = pool

    def _drive(self):
        while not self.done() and self.pool.step():
            pass

    def result(self, timeout=None):
        self._drive()
        return super().result(0)

    def exception(self, timeout=None):
        self._drive()
        return super().exception(0)


class Control:
    """Everything the pools of one run do, and what they did."""

    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.rng = random.Random(plan["seed"])
        self.tasks = []  # {"args", "state", "outcome"}
        self.stop_at = plan.get("interrupt")
        self.steps = 0
        self.refused = False

    def waiting(self):
        """Called each time the caller is about to block."""
        self.steps += 1
        if self.stop_at is not None and self.steps > self.stop_at:
            self.stop_at = None
            self.ctx.fault("interrupt-while-waiting")
            raise KeyboardInterrupt


class SimPool(cf.Executor):
    control: Control

    def __init__(self, max_workers=None, *a, **kw):
        c = self.control
        self.n = max(1, min(max_workers or c.plan["workers"], c.plan["workers"]))
        self.workers = None
        self.queue, self.running, self.now, self.broken = [], [], 0.0, False
        self.closed = False

    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            self.control.refused = True
            raise BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        c = self.control
        if self.workers is None:
            self.workers = []
            for i in range(self.n):
                self.workers.append(Worker(self.workers, c.rng.getrandbits(31) if c.plan.get("spawn") else None))
            self.idle = list(range(self.n))
        f = SimFuture(self)
        k = len(c.tasks)
        rec = {"k": k, "args": args, "state": None, "outcome": "pending"}
        c.tasks.append(rec)
        # A helper thread of the real pool pickles a task some time after it was submitted: at once, or when a worker is free for it.
        job = [(fn, args, kwargs), None]
        if c.rng.random() < 0.5:
            self._pickle(f, job, rec)
        self.queue.append((f, job, rec))
        if c.rng.random() < 0.6:
            self._dispatch()
            if c.rng.random() < 0.6:
                self.step()
        return f

    def _pickle(self, f, job, rec):
        try:
            job[1] = pickle.dumps(job[0])
        except Exception as e:  # noqa: BLE001
            rec["outcome"] = "unpicklable"
            job[1] = e

    def _dispatch(self):
        c = self.control
        while self.idle and self.queue:
            f, job, rec = self.queue.pop(0)
            if not f.set_running_or_notify_cancel():
                rec["outcome"] = "cancelled"
                continue
            if job[1] is None:
                self._pickle(f, job, rec)
            if not isinstance(job[1], bytes):
                f.set_exception(job[1])
                continue
            blob = job[1]
            w = self.idle.pop(c.rng.randrange(len(self.idle)))
            end = self.now + c.rng.choice([0.1, 1.0, 1.0, 3.0, 30.0]) * (0.5 + c.rng.random())
            self.running.append((end, w, f, blob, rec))

    def step(self):
        """Let the next result come back. False if nothing is under way."""
        c = self.control
        self._dispatch()
        if not self.running:
            return False
        self.running.sort(key=lambda t: (t[0], t[1]))
        end, w, f, blob, rec = self.running.pop(0)
        c.ctx.sim_seconds += max(0.0, end - self.now)
        self.now = end
        c.ctx.schedule_points += 1
        fault = c.plan.get("faults", {}).get(str(rec["k"]))
        if fault:
            c.ctx.fault("worker-" + fault)
        out = self.workers[w].run(blob, fault)
        c.ctx.event("task", rec["k"], "worker", w, out[0])
        rec["outcome"] = out[0]
        rec["fault"] = fault
        if out[0] == "dead":
            self.broken = True
            err = BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
            for _, _, g, _, r in [(end, w, f, blob, rec)] + self.running:
                r["outcome"] = "dead"
                g.set_exception(err)
            for g, _, r in self.queue:
                r["outcome"] = "dead"
                g.set_running_or_notify_cancel()
                g.set_exception(err)
            self.running, self.queue = [], []
            for x in self.workers:
                x.close()
            return True
        self.idle.append(w)
        rec["state"] = out[-1]
        if out[0] == "ok":
            f.set_result(pickle.loads(out[1]))
        else:
            rec["error"] = repr(out[1])[:200]
            f.set_exception(out[1])
        return True

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f, _, r in self.queue:
                r["outcome"] = "cancelled"
                f.cancel()
            self.queue = []
        while not self.broken and self.step():
            pass
        self.closed = True
        for w in self.workers or []:
            w.close()


class SimThreads(SimPool):
    """A thread pool: tasks share the caller's memory and are interleaved point by point as the seed says.

    Each task sees a noise source of its own, so that its result can be recomputed alone.
    """

    def submit(self, fn, /, *args, **kwargs):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        c = self.control
        f = SimFuture(self)
        rec = {"k": len(c.tasks), "args": args, "state": None, "outcome": "pending"}
        c.tasks.append(rec)
        self.queue.append((f, (fn, args, kwargs), rec))
        return f

    def step(self):
        c = self.control
        if not self.queue:
            return False
        batch, self.queue = self.queue[: self.n], self.queue[self.n :]
        switches = [[c.rng.choice([0, 1, 2, 5, 20, 60]), c.rng.randrange(8)] for _ in range(60)]
        order = []

        def body(job, rec, fault, seed):
            def go():
                _TLS.rs = np.random.RandomState(seed)
                rec["state"] = _TLS.rs.get_state()
                try:
                    if fault in ("raise", "fft", "die"):
                        raise MemoryError("simulated: cannot allocate")
                    return job[0](*job[1], **job[2])
                finally:
                    _TLS.rs = None
                    order.append(rec["k"])

            return go

        fns = []
        for f, job, rec in batch:
            f.set_running_or_notify_cancel()
            rec["fault"] = c.plan.get("faults", {}).get(str(rec["k"]))
            if rec["fault"]:
                c.ctx.fault("worker-raise")
            fns.append(body(job, rec, rec["fault"], c.rng.getrandbits(31)))
        _patch_noise()
        res, err = seams.Scheduler(c.ctx, switches).run(fns)
        for i in sorted(range(len(batch)), key=lambda i: order.index(batch[i][2]["k"])):
            f, _, rec = batch[i]
            rec["outcome"] = "error" if i in err else "ok"
            c.ctx.event("task", rec["k"], "thread", rec["outcome"])
            if i in err:
                rec["error"] = repr(err[i])[:200]
                f.set_exception(err[i])
            else:
                f.set_result(res[i])
        return True


_TLS = threading.local()
_NOISE = ("normal", "standard_normal", "randn", "rand", "random", "random_sample", "uniform", "randint")


def _patch_noise():
    for name in _NOISE:
        real = getattr(np.random, name)
        if getattr(real, "per_thread", False):
            continue

        def draw(*a, _real=real, _name=name, **k):
            rs = getattr(_TLS, "rs", None)
            return getattr(rs, _name)(*a, **k) if rs is not None else _real(*a, **k)

        draw.per_thread = True
        setattr(np.random, name, draw)


def _as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not all(isinstance(f, SimFuture) for f in fs):
        yield from _REAL["as_completed"](fs, timeout)
        return
    c = SimPool.control
    done = [f for f in fs if f.done()]
    c.rng.shuffle(done)
    yield from done
    left = [f for f in fs if f not in done]
    while left:
        c.waiting()
        batch = [f for f in left if f.done()]
        if not batch:
            for p in dict.fromkeys(f.pool for f in left):
                p.step()
            batch = [f for f in left if f.done()]
        c.rng.shuffle(batch)
        for f in batch:
            left.remove(f)
            yield f


def _wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    if not all(isinstance(f, SimFuture) for f in fs):
        return _REAL["wait"](fs, timeout, return_when)
    c = SimPool.control
    while True:
        done = {f for f in fs if f.done()}
        hit = {f for f in done if not f.cancelled() and f.exception() is not None}
        if len(done) == len(fs) or (done and return_when == cf.FIRST_COMPLETED) or (hit and return_when == cf.FIRST_EXCEPTION):
            return cf._base.DoneAndNotDoneFutures(done, set(fs) - done)
        c.waiting()
        for p in dict.fromkeys(f.pool for f in fs if not f.done()):
            p.step()


def install(ctx, plan) -> Control:
    c = Control(ctx, plan)
    SimPool.control = c
    for name, new in (("ProcessPoolExecutor", SimPool), ("ThreadPoolExecutor", SimThreads), ("as_completed", _as_completed), ("wait", _wait)):
        seams.rebind(_REAL[name], new)
        setattr(cf, name, new)
    return c
