"""C05: saving a model never costs the previous one."""

import errno
import io
import os
import pickle
import shutil
from pathlib import Path

import numpy as np

from .. import calib as C
from .. import disk as D
from .. import seams
from ..core import Violation

ID = "C05"
RUNS = {"quick": 900, "thorough": 20000}
LEVEL = "exploration"
RULE = "one run = one seeded save history (first save or overwrite, string/Path directory) hit by one seeded disk fault, process crash, power loss or interrupt at one seeded operation, then examined, recovered and saved again; distinct = distinct event logs"
REAL = ["CalibrationProblem.save_model", "pickle", "CPython file objects", "kernel filesystem (through the disk seam)"]
STUB = ["disk: LD_PRELOAD interposer injects errors, short writes and crashes; power loss is rebuilt from its operation log"]
ASSUMPTIONS = [
    "power loss follows the model in sim/disk.py (journalled directory operations survive as an ordered prefix, unsynced data is arbitrary)",
    "leftover temporary files beside the model file are allowed; only the model file itself is judged",
]

OPS = ["open", "write", "fsync", "rename", "unlink", "trunc", "close", "link"]


def gen(rng, tier, idx):
    spec = C.rng_spec(rng)
    spec["hidden"] = rng.pick([2, 4, 10, 40, 120])  # from one write to many
    kind = rng.pick(["err", "err", "short", "full", "crash_before", "crash_after", "crash_torn", "power", "power", "power", "eintr", "interrupt", "kill", "none", "race", "refused", "refused"])
    return {
        "spec": spec,
        "old": rng.chance(0.8),
        "path": rng.pick(["str", "Path", "Path", "default"]),
        "fault": {"kind": kind, "frac": rng.random(), "err": rng.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES]), "part": rng.random(), "seed": rng.getrandbits(31)},
        "switch": [[rng.pick([0, 1, 1, 2, 3, 4, 6, 9, 12]), (k + 1) % 2] for k in range(rng.randrange(1, 9))],
        "again": rng.chance(0.4),
        "resave": rng.chance(0.7),
        "unpowered_after": rng.chance(0.5),
    }


def warm():
    C.warm()


def _save(pb, plan, d):
    if plan["path"] == "default":
        pb.save_model()
    else:
        pb.save_model(Path(d) if plan["path"] == "Path" else str(d))


def _content(raw):
    """What a reader gets from the file: (parameters, configuration text) or an error."""
    try:
        obj = pickle.load(io.BytesIO(raw))
        if len(obj) != 5:
            return ("bad", f"{len(obj)} items")
        return ("ok", np.asarray(obj[4]).tobytes(), repr(obj[:4]))
    except Exception as e:  # noqa: BLE001
        return ("bad", type(e).__name__ + ": " + str(e)[:100])


def _read(path):
    return open(path, "rb").read() if os.path.exists(path) else None


def _verdict(raw, old, new, path):
    if raw is None:
        return "absent"
    c = _content(raw)
    if c[0] != "ok":
        return f"unreadable ({c[1]})"
    if old is not None and c[1:] == old[1:]:
        return "old"
    if new is not None and c[1:] == new[1:]:
        return "new"
    return "a mixture"


def execute(plan, ctx):
    spec, f = plan["spec"], plan["fault"] or {"kind": "none"}
    home = ctx.dir("models")
    pb = C.build(spec, None, home if plan["path"] != "Path" else Path(home))
    C.start(pb, spec, 0)
    # where the model goes, and what old and new look like, from undisturbed saves elsewhere
    d0 = ctx.dir("probe")
    pb.save_model(d0)
    files = [x for x in os.listdir(d0)]
    if len(files) != 1:
        raise Violation("not-one-file", f"an undisturbed save left {files}")
    target = os.path.join(home, files[0])
    old = _content(_read(os.path.join(d0, files[0])))
    if old[0] != "ok" or old[1] != C.snapshot(pb).tobytes():
        raise Violation("save-not-faithful", f"undisturbed save: {old[0]} {old[1] if old[0] == 'bad' else ''}")
    if plan["old"]:
        _save(pb, plan, home)
    C.start(pb, spec, 1)
    d1 = ctx.dir("probe2")
    pb.save_model(d1)
    new = _content(_read(os.path.join(d1, files[0])))
    for d in (d0, d1):
        shutil.rmtree(d)
    before = C.snapshot(pb)
    initial = {os.path.join(home, x): _read(os.path.join(home, x)) for x in os.listdir(home)}
    if plan["old"] and _verdict(_read(target), old, None, target) != "old":
        raise Violation("save-not-faithful", "the saved model is not at its place after a normal save")
    disk = seams.Disk()
    ctx.event("kind", f["kind"], "old" if plan["old"] else "first", plan["path"], spec["kind"])

    def count():
        disk.arm(home, OPS)
        _save(pb, plan, home)
        return disk.disarm()[0]

    # the dry run must not touch the directory under test
    def dry():
        n = count()
        return n

    seams.own_mount(ctx, home)
    keep = ctx.dir("keep")
    shutil.rmtree(keep)
    shutil.copytree(home, keep)
    n = seams.in_fork(dry)
    shutil.rmtree(home)
    shutil.copytree(keep, home)

    kind = f["kind"]
    outcome = "returned"
    if kind == "race":
        outcome = _race(plan, ctx, pb, spec, home, target)
        return
    if kind == "none":
        _save(pb, plan, home)
    elif kind in ("interrupt", "kill"):
        def pts():
            with seams.Interruptor() as it:
                pb.save_model(ctx.dir("probe3"))
            return it.n

        m = seams.in_fork(pts)

        def body():
            it = seams.Interruptor(int(f["frac"] * m), "kill" if kind == "kill" else KeyboardInterrupt)
            try:
                with it:
                    _save(pb, plan, home)
            except KeyboardInterrupt:
                if plan.get("again"):  # the same process tries again
                    _save(pb, plan, home)
                    return "returned"
                return "raised"
            return "returned"

        r = seams.in_fork(body, raw=True)
        outcome = "crashed" if r.code == 77 else r.value
        if r.error:
            raise Violation(f"unexpected-{r.error[0]}", r.error[1])
        ctx.fault(kind)
        ctx.schedule_points += m
    else:
        at = int(f["frac"] * n) if n else 0
        log = os.path.join(ctx.scratch, "io.log")
        power = kind in ("power", "refused")
        cls = ["fsync", "fsync", "rename", "rename", "write", "open", "close"][(f["seed"] >> 4) % 7] if kind == "refused" else None
        k = {"power": ["crash_before", "crash_after", "crash_torn"][f["seed"] % 3]}.get(kind, kind)
        if cls:  # the disk refuses to sync, to rename, ..., and then the power fails
            k, at = "err", int(f["frac"] * 1.3)
        elif power and plan["unpowered_after"] and f["frac"] > 0.8:
            k, at = "none", -1  # the save completes, then the power fails

        def body():
            disk.arm(home, [cls] if cls else OPS, at=at, kind=k, err=errno.EIO if cls == "fsync" else f["err"], frac=f["part"], log=log)
            try:
                _save(pb, plan, home)
                out = "returned"
            except OSError as e:
                out = f"raised {errno.errorcode.get(e.errno, e.errno)}"
            fired = disk.disarm()[1]
            if out != "returned" and plan.get("again"):  # the fault is gone and the same process tries again
                _save(pb, plan, home)
                out = "returned"
            return out, fired

        r = seams.in_fork(body, raw=True)
        if r.error:
            raise Violation(f"unexpected-{r.error[0]}", r.error[1])
        outcome = "crashed" if r.code == 77 else r.value[0]
        if r.code not in (0, 77):
            raise RuntimeError(f"save process ended with {r.code}")
        if cls and r.value[1]:
            ctx.fault(f"refused-{cls}")
        ctx.fault("power-loss" if power else kind, 1 if (r.code == 77 or power) else int(r.value[1] > 0))
        ctx.event("at", at, "of", n, outcome)
        ctx.schedule_points += n
        if power:
            left = D.after_power_loss(D.parse(log), home, initial, f["seed"])
            shutil.rmtree(home)
            os.makedirs(home)
            for p, raw in left.items():
                with open(p, "wb") as fh:
                    fh.write(raw)
            if outcome == "returned":
                outcome = "returned, then power failed"
    v = _verdict(_read(target), old if plan["old"] else None, new, target)
    ctx.event("verdict", outcome, v)
    allowed = {"old", "new"} if plan["old"] else {"absent", "new"}
    if outcome == "returned":
        allowed = {"new"}
    if v not in allowed:
        raise Violation("model-lost", f"save {outcome} under {kind}: the model file is {v}, expected {' or '.join(sorted(allowed))}")
    if C.snapshot(pb).tobytes() != before.tobytes():
        raise Violation("save-changes-model", "saving changed the parameters in memory")
    if plan["resave"]:
        _save(pb, plan, home)
        v = _verdict(_read(target), None, new, target)
        ctx.event("resave", v)
        if v != "new":
            raise Violation("no-recovery", f"after the fault cleared, saving again left the model {v}")


def _race(plan, ctx, pb, spec, home, target):
    """Two problems of the same kind saved to one directory by two threads: one of them wins, whole."""
    other = C.start(C.build(spec, None, home), spec, 2)
    want = {C.snapshot(p).tobytes() for p in (pb, other)}
    sch = seams.Scheduler(ctx, plan["switch"])
    _, errors = sch.run([lambda: pb.save_model(home), lambda: other.save_model(home)])
    for e in errors.values():
        raise e
    c = _content(_read(target) or b"")
    ctx.event("race", c[0])
    if c[0] != "ok" or c[1] not in want:
        raise Violation("model-lost", f"two concurrent saves left a model file that is neither: {c[0]}")
