"""C12: an exported field file holds exactly the generated field, or the export says it failed."""

import errno
import os
import random
import re
import struct
from pathlib import Path

import numpy as np

from .. import fields as F
from .. import seams
from ..core import Violation

ID = "C12"
RUNS = {"quick": 1200, "thorough": 30000}
LEVEL = "exploration"
RULE = (
    "one run = one generator driven through a seeded history of generate and export steps (one or several blocks, 2D component or not, string or path-like "
    "target, new or existing file) with disk errors, full disks, short and interrupted writes at seeded write operations; each file is decoded byte by byte; "
    "distinct = distinct event logs"
)
REAL = ["FluctuationFieldGenerator.generate/save_to_vtk", "pyevtk", "FFTW"]
STUB = ["FFT planner choice", "disk writes (errors, full disk, short, interrupted)"]
ASSUMPTIONS = ["process death only, no power loss: what was handed to the operating system before the death is kept"]
MIN_LEN = {"ops": 1}
OPS = ["open", "write", "close", "rename", "mkdir"]


def gen(rng, tier, idx):
    spec = F.rng_spec(rng, two_d=0.15)
    if spec["cfg2d"]:
        spec["cfg2d"].update(exp1=3, exp2=3, L1_factor=1, L2_factor=1)
    ops = [{"op": "gen", "n": rng.randrange(1, 4)}]
    for _ in range(rng.randrange(1, 6)):
        if rng.chance(0.35):
            ops.append({"op": "gen", "n": rng.randrange(1, 3)})
        else:
            ops.append(
                {
                    "op": "save",
                    "name": rng.pick(["a", "a", "b", "sub/c", "with space", "u10.z0.03.run1", "sub/d.2", "wind_é"]),
                    "as": rng.pick(["str", "str", "Path", "rel"]),
                    "fault": {"kind": rng.pick(["err", "err", "full", "short", "eintr", "crash_before", "crash_after", "crash_torn", "interrupt"]), "frac": rng.random(), "err": rng.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES]), "part": rng.random(), "keep": rng.chance(0.6)} if rng.chance(0.5) else None,
                }
            )
    if not any(o["op"] == "save" for o in ops):
        ops.append({"op": "save", "name": "z", "as": "Path", "fault": None})
    return {"spec": spec, "prof": F.profile(rng), "ops": ops, "hseed": rng.getrandbits(31)}


def warm():
    F.warm()


def decode(path):
    """Image data file with appended raw data: {'extent', 'spacing', 'origin', 'cell': {name: array}}."""
    raw = open(path, "rb").read()
    m = re.search(rb"<AppendedData[^>]*>\s*_", raw)
    if m is None:
        raise ValueError("no appended data")
    head, body = raw[: m.start()].decode("ascii"), raw[m.end() :]
    order = "<" if "LittleEndian" in head else ">"
    htype = re.search(r'header_type="(\w+)"', head)
    hsz = {"UInt64": 8, "UInt32": 4}[htype.group(1) if htype else "UInt32"]
    ext = [int(x) for x in re.search(r'<Piece[^>]*Extent="([^"]+)"', head).group(1).split()]
    whole = [int(x) for x in re.search(r'WholeExtent="([^"]+)"', head).group(1).split()]
    spacing = [float(x) for x in re.search(r'Spacing="([^"]+)"', head).group(1).split()]
    origin = [float(x) for x in re.search(r'Origin="([^"]+)"', head).group(1).split()]
    out = {"extent": ext, "whole": whole, "spacing": spacing, "origin": origin, "cell": {}, "point": {}}
    n = [ext[2 * i + 1] - ext[2 * i] for i in range(3)]
    end = 0
    for sec, key in (("CellData", "cell"), ("PointData", "point")):
        s = re.search(rf"<{sec}[^>]*>(.*?)</{sec}>", head, re.S)
        for tag in re.findall(r"<DataArray[^>]*/?>", s.group(1)) if s else []:
            at = dict(re.findall(r'(\w+)="([^"]*)"', tag))
            off, comps = int(at["offset"]), int(at.get("NumberOfComponents", 1))
            dt = np.dtype({"Float64": "f8", "Float32": "f4"}[at["type"]]).newbyteorder(order)
            size = struct.unpack(order + ("Q" if hsz == 8 else "I"), body[off : off + hsz])[0]
            want = comps * int(np.prod([x + (key == "point") for x in n])) * dt.itemsize
            if size != want:
                raise ValueError(f"{at['Name']}: {size} bytes announced, {want} expected")
            data = np.frombuffer(body[off + hsz : off + hsz + size], dt)
            if data.size * dt.itemsize != size:
                raise ValueError(f"{at['Name']}: file ends early")
            shape = [x + (key == "point") for x in n]
            out[key][at["Name"]] = data.reshape([comps, *shape], order="F") if comps == 1 else data.reshape([comps, *shape], order="F")
            end = max(end, off + hsz + size)
    if b"</AppendedData>" not in body[end:] or b"</VTKFile>" not in body[end:]:
        raise ValueError("file ends early")
    return out


def _check(path, field, spec, where):
    found = [p for p in (path, path + ".vti") if os.path.isfile(p)]
    if len(found) != 1:
        raise Violation("no-file", f"{where}: no file at the given name ({sorted(os.listdir(os.path.dirname(path)))})")
    try:
        d = decode(found[0])
    except (ValueError, AttributeError, struct.error, KeyError, UnicodeDecodeError) as e:
        raise Violation("file-damaged", f"{where}: export returned but the file does not decode: {e}") from None
    wind = d["cell"].get("wind")
    if wind is None:
        raise Violation("file-wrong", f"{where}: no wind data, only {list(d['cell'])}")
    if d["extent"] != d["whole"]:
        raise Violation("file-wrong", f"{where}: piece {d['extent']} of {d['whole']}")
    got = np.moveaxis(wind, 0, -1)
    if got.shape != field.shape:
        raise Violation("file-wrong", f"{where}: file holds {got.shape}, field is {field.shape}")
    if not np.array_equal(got, field.astype(got.dtype)) or got.dtype.itemsize < field.dtype.itemsize:
        raise Violation("file-wrong", f"{where}: {F.gap(got.astype(float), field.astype(float))}")
    want = np.array(spec["dims"]) / (2.0 ** np.array(spec["levels"]) + 1)
    if not np.allclose(d["spacing"], want, rtol=1e-9):
        raise Violation("file-wrong", f"{where}: spacing {d['spacing']}, grid spacing {want}")


def _plain(plan, ctx):
    """The same blocks without any export."""
    seams.FFTSeam(ctx).install()
    g = F.build(plan["spec"])
    out = None
    for o in plan["ops"]:
        if o["op"] == "gen":
            out = F.gen(g, o["n"], plan["prof"])
    return None if out is None else out.copy()


def execute(plan, ctx):
    spec = plan["spec"]
    out = ctx.dir("out")
    ctx.dir("out/sub")
    ref = seams.in_fork(_plain, plan, ctx)
    seams.FFTSeam(ctx).install()
    disk = seams.Disk()
    seams.own_mount(ctx, out)
    os.chdir(out)
    g = F.build(spec)
    field = None
    written = {}
    held = []
    rng = random.Random(plan["hseed"])
    for step, o in enumerate(plan["ops"]):
        if o["op"] == "gen":
            field = F.gen(g, o["n"], plan["prof"]).copy()
            ctx.event("gen", o["n"], field.shape)
            continue
        if field is None:
            continue
        path = os.path.join(out, o["name"])
        target = {"Path": Path(path), "rel": o["name"]}.get(o["as"], path)
        f = o["fault"]
        if f:

            def count():
                disk.arm(out, OPS)
                g.save_to_vtk(os.path.join(out, "count"))
                n = disk.disarm()[0]
                for x in os.listdir(out):
                    if x.startswith("count"):
                        os.unlink(os.path.join(out, x))
                return n

            def points():
                with seams.Interruptor() as it:
                    g.save_to_vtk(os.path.join(out, "count"))
                for x in os.listdir(out):
                    if x.startswith("count"):
                        os.unlink(os.path.join(out, x))
                return it.n

            stop = f["kind"] == "interrupt"
            n = seams.in_fork(points if stop else count)
            crash = f["kind"].startswith("crash")

            def interrupted():
                it = seams.Interruptor(int(f["frac"] * n), KeyboardInterrupt)
                try:
                    with it:
                        g.save_to_vtk(target)
                except KeyboardInterrupt:
                    return "interrupted"
                return None

            def attempt():
                disk.arm(out, OPS, at=int(f["frac"] * n), kind=f["kind"], err=f["err"], frac=f["part"])
                try:
                    g.save_to_vtk(target)
                    return None
                except OSError as e:
                    return e

            if crash:
                r = seams.in_fork(lambda: repr(attempt()), raw=True)
                failed = "died" if r.code == 77 else (None if r.value == "None" else r.value)
                fired = r.code == 77
            elif stop:
                failed = interrupted()
                fired = failed is not None
            else:
                failed = attempt()
                _, fired = disk.disarm()
            ctx.fault(f"disk-{f['kind']}", int(fired > 0))
            ctx.schedule_points += n
            ctx.event("export under fault", f["kind"], int(f["frac"] * n), "of", n, getattr(failed, "errno", failed))
            if failed is not None and (not fired or f["kind"] in ("short", "eintr")):
                raise Violation("export-refused", f"step {step}: {failed} although every write could be completed")
            if failed is None:
                _check(path, field, spec, f"step {step}: export that reported success under disk fault {f['kind']}")
            else:
                # whatever was exported before, under this name or another, is still there, or completely replaced
                for p, (s, fld) in written.items():
                    try:
                        _check(p, fld, spec, f"file of step {s} after the export of step {step} failed ({f['kind']})")
                    except Violation:
                        if p != path:
                            raise
                        _check(p, field, spec, f"file of step {s} after the export over it at step {step} failed ({f['kind']})")
            if failed is not None and not crash and not stop and f["keep"]:
                held.append(failed)  # the caller is still handling the error while it tries again
            failed = None
            if not F.same_bits(np.asarray(g.total_fluctuation), field):
                raise Violation("field-changed", f"step {step}: exporting changed the field in memory")
        g.save_to_vtk(target)
        _check(path, field, spec, f"step {step}: export of {field.shape}")
        if not F.same_bits(np.asarray(g.total_fluctuation), field):
            raise Violation("field-changed", f"step {step}: exporting changed the field in memory")
        written[path] = (step, field)
        if held and rng.random() < 0.7:
            held.clear()
        for p, (s, fld) in written.items():
            _check(p, fld, spec, f"file of step {s} looked at after step {step}")
        ctx.event("export", o["name"], o["as"], field.shape)
        ctx.probe("exports")
    held.clear()
    for p, (s, fld) in written.items():
        _check(p, fld, spec, f"file of step {s} at the end")
    if ref is not None and not F.close(field, ref, 1e-6):
        raise Violation("generation-perturbed", f"exporting between blocks changed later blocks: {F.gap(field, ref)}")
