"""C11: coherence measurements end up in the cells their records name, however the file delivers them."""

import errno
import os
from pathlib import Path

import numpy as np

from .. import calib as C
from .. import seams
from ..core import Violation

ID = "C11"
RUNS = {"quick": 2500, "thorough": 60000}
LEVEL = "exploration"
RULE = (
    "one run = one seeded history of loads into one problem of measurement files whose records are reordered, lost, repeated, numbered with gaps, interleaved "
    "with comments and blank lines, read in short pieces or hit by a read error, or unusable; after each load the stored grid is compared with a dictionary of "
    "the records; distinct = distinct event logs"
)
REAL = ["CalibrationProblem.load_coherence_data", "calibrate's use of it", "pandas parser"]
STUB = ["disk reads (short, failing, interrupted)"]
ASSUMPTIONS = ["records of one cell repeat identically; a file is cut only between fields"]
MIN_LEN = {"loads": 1}


def gen(rng, tier, idx):
    loads = []
    for _ in range(rng.randrange(1, 5)):
        loads.append(
            {
                "c": {"nsep": rng.pick([rng.randrange(1, 9), rng.randrange(1, 9), rng.randrange(9, 16)]), "nfreq": rng.pick([rng.randrange(1, 7), rng.randrange(1, 7), rng.randrange(7, 30)]), "seed": rng.getrandbits(31)},
                "order": rng.pick(["sorted", "shuffled", "shuffled", "freq-major", "reversed", "blocks"]),
                "oseed": rng.getrandbits(31),
                "lose": rng.pick([0, 0, 0, 0.1, 0.4]),
                "dup": rng.pick([0, 0, 0.2, 1.0]),
                "idx": rng.pick(["plain", "plain", "one", "gaps"]),
                "desc": rng.chance(0.1),
                "comments": rng.chance(0.3),
                "blank": rng.chance(0.2),
                "sep": rng.pick([" ", " ", "\t", "   "]),
                "cols": rng.getrandbits(31) if rng.chance(0.2) else None,
                "extra": rng.chance(0.15),
                "fmt": rng.pick(["repr", "exp"]),
                "eol": rng.pick(["\n", "\n", "\n", "\r\n"]),
                "trail": rng.chance(0.8),
                "path": rng.pick(["str", "Path"]),
                "zerof": rng.chance(0.15),
                "how": rng.pick(["load", "load", "load", "load", "calibrate"]) if idx % 12 == 0 else "load",
                "chunk": rng.pick([0, 0, 1, 7, 100]),
                "fault": {"kind": rng.pick(["err", "err", "eintr", "short"]), "frac": rng.random(), "err": rng.pick([errno.EIO, errno.ESTALE])} if rng.chance(0.3) else None,
                "spoil": rng.pick([None] * 8 + ["missing", "empty", "column", "text", "directory", "merged"]),
                "nans": rng.pick([0, 0, 0, 0.1, 0.5]),
                "cut": rng.pick([None, None, None, None, None, 3, 4, 5, 6]),
                "replace": rng.chance(0.25),
                "twin": rng.chance(0.08),
            }
        )
    spec = C.rng_spec(rng, kinds=("CONST", "TWOTHIRD"), epochs=(1, 1))
    spec.update(wolfe=2, npts=6, k1=4, gamma_coh=1.0, adam=True)
    return {"spec": spec, "loads": loads}


def warm():
    C.warm()


COLS = ["sep_idx", "freq_idx", "spatial_sep", "frequency", "coh_u", "coh_v", "coh_w"]


def _rows(ld):
    """The records as delivered, and what they say: {(sep_idx, freq_idx): row}."""
    rows = C.coherence_rows(ld["c"])
    ren = {"plain": lambda i: i, "one": lambda i: i + 1, "gaps": lambda i: 3 * i + 2}[ld["idx"]]
    if ld["zerof"]:
        rows = [(i, j, s, 0.0 if j == 0 else f, *v) for i, j, s, f, *v in rows]
    if ld["desc"]:  # larger index, smaller separation
        seps = sorted({r[2] for r in rows}, reverse=True)
        rows = [(i, j, seps[i], f, *v) for i, j, s, f, *v in rows]
    if ld.get("twin"):  # two frequency and two separation numbers with the same value
        fs, ss = sorted({r[3] for r in rows}), sorted({r[2] for r in rows})
        rows = [(i, j, ss[-1] if len(ss) > 1 and s == ss[-2] else s, fs[-1] if len(fs) > 1 and f == fs[-2] else f, *v) for i, j, s, f, *v in rows]
    rows = [(ren(i), ren(j), s, f, *v) for i, j, s, f, *v in rows]
    rs = np.random.RandomState(ld["oseed"] & 0x7FFFFFFF)
    keep = [r for r in rows if rs.rand() >= ld["lose"]] or rows[:1]
    if ld["dup"] == 1.0:
        keep = keep + keep
    elif ld["dup"]:
        keep = keep + [r for r in keep if rs.rand() < ld["dup"]]
    o = ld["order"]
    if o == "sorted":
        keep.sort(key=lambda r: (r[0], r[1]))
    elif o == "freq-major":
        keep.sort(key=lambda r: (r[1], r[0]))
    elif o == "reversed":
        keep.sort(key=lambda r: (-r[0], -r[1]))
    elif o == "shuffled":
        rs.shuffle(keep)
        keep = [tuple(r) for r in keep]
    else:
        k = rs.randint(0, len(keep))
        keep = keep[k:] + keep[:k]
    keep = [(int(r[0]), int(r[1]), *(float(x) for x in r[2:])) for r in keep]
    if ld.get("nans"):  # the sensor reported, but without a value: the cell stays empty
        gone = {(r[0], r[1]): rs.rand() < ld["nans"] for r in keep}
        keep = [(*r[:4], *((np.nan,) * 3 if gone[r[0], r[1]] else r[4:])) for r in keep]
    return keep


def _cut(ld, rows):
    """The last record arrives only up to some field; possible when other records name its separation and frequency."""
    if ld.get("cut") is None or ld["cols"] is not None or ld["extra"] or len(rows) < 3:
        return False
    i, j = rows[-1][:2]
    if not any(r[0] == i for r in rows[:-1]) or not any(r[1] == j for r in rows[:-1]) or any(r[:2] == (i, j) for r in rows[:-1]):
        return False
    n = ld["cut"]
    rows[-1] = (*rows[-1][:n], *(np.nan,) * (7 - n))
    return True


def _write(path, ld, rows, cut=False):
    rs = np.random.RandomState((ld["oseed"] + 1) & 0x7FFFFFFF)
    cols = list(range(7))
    if ld["cols"] is not None:
        np.random.RandomState(ld["cols"] & 0x7FFFFFFF).shuffle(cols)
    eol = ld["eol"]
    fmt = (lambda x: repr(x)) if ld["fmt"] == "repr" else (lambda x: f"{x:.17e}" if isinstance(x, float) else str(x))
    out = ["# Coherence data", "# Grid: see below"]
    out.append(ld["sep"].join(COLS[c] for c in cols) + (ld["sep"] + "quality" if ld["extra"] else ""))
    for k, r in enumerate(rows):
        if ld["comments"] and rs.rand() < 0.2:
            out.append("# sensor restarted")
        if ld["blank"] and rs.rand() < 0.2:
            out.append("")
        n = ld["cut"] if cut and k == len(rows) - 1 else 7
        out.append(ld["sep"].join(fmt(r[c]) for c in cols[:n]) + (ld["sep"] + "1" if ld["extra"] else ""))
    text = eol.join(out) + (eol if ld["trail"] else "")
    with open(path, "w", newline="") as f:
        f.write(text)


def _grid(rows):
    seps = sorted({r[0] for r in rows})
    freqs = sorted({r[1] for r in rows})
    g = {k: np.full((len(seps), len(freqs)), np.nan) for k in "uvw"}
    sv, fv = np.zeros(len(seps)), np.zeros(len(freqs))
    for i, j, s, f, u, v, w in rows:
        a, b = seps.index(i), freqs.index(j)
        g["u"][a, b], g["v"][a, b], g["w"][a, b] = u, v, w
        sv[a], fv[b] = s if s == s else sv[a], f if f == f else fv[b]
    return {"sep": sv, "freq": fv, **g}


def _stored(pb):
    if not hasattr(pb, "coherence_u"):
        return None
    return {
        "sep": np.array(pb.coherence_spatial_seps, float),
        "freq": np.array(pb.coherence_frequencies, float),
        "u": np.array(pb.coherence_u, float),
        "v": np.array(pb.coherence_v, float),
        "w": np.array(pb.coherence_w, float),
        "plot": np.array(pb.coherence_plot_separations, float),
    }


def _equal(a, b):
    return a.shape == b.shape and bool(np.array_equal(np.isnan(a), np.isnan(b))) and bool(np.allclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True))


def _compare(got, want, where):
    if got is None:
        raise Violation("nothing-loaded", f"{where}: load returned but nothing is stored")
    for k, name in (("sep", "separations"), ("freq", "frequencies"), ("u", "u coherence"), ("v", "v coherence"), ("w", "w coherence")):
        if not _equal(got[k], want[k]):
            if got[k].shape == want[k].shape:
                bad = np.argwhere(~np.isclose(got[k], want[k], rtol=1e-12, atol=1e-14, equal_nan=True))
                at = tuple(int(x) for x in bad[0])
                raise Violation("record-misplaced", f"{where}: {name}: {len(bad)} cells differ, first at {at}: {got[k][at]} instead of {want[k][at]}")
            raise Violation("record-misplaced", f"{where}: {name} has shape {got[k].shape} instead of {want[k].shape}")
    for s in got["plot"]:
        if not np.any(np.isclose(s, want["sep"], rtol=1e-12)):
            raise Violation("record-misplaced", f"{where}: {s} selected for fitting is not one of the separations")


def execute(plan, ctx):
    spec = plan["spec"]
    data = ctx.dir("data")
    seams.install_writer(ctx, "eager")
    disk = seams.Disk()
    pb = C.start(C.build(spec, ctx.dir("logs")), spec)
    for n, ld in enumerate(plan["loads"]):
        path = os.path.join(data, f"coh{n}.dat")
        rows = _rows(ld)
        cut = _cut(ld, rows)
        _write(path, ld, rows, cut)
        want = _grid(rows)
        name = Path(path) if ld["path"] == "Path" else path
        before = _stored(pb)
        raw0 = open(path, "rb").read()
        if ld["spoil"]:
            bad = os.path.join(data, f"bad{n}.dat")
            if ld["spoil"] == "empty":
                open(bad, "w").close()
            elif ld["spoil"] == "column":
                with open(bad, "w") as f:
                    f.write("sep_idx freq_idx spatial_sep frequency coh_u\n0 0 1.0 0.1 0.5\n")
            elif ld["spoil"] == "text":
                with open(bad, "w") as f:
                    f.write("this is not a table\n\x00\x01 garbage\n")
            elif ld["spoil"] == "merged":  # two records run together in one line
                with open(bad, "w") as f:
                    f.write(" ".join(COLS) + "\n0 0 1.0 0.1 0.5 0.4 0.3\n0 1 1.0 0.2 0.5 0.4 0.31 0 2.0 0.1 0.5 0.4 0.3\n1 1 2.0 0.2 0.5 0.4 0.3\n")
            elif ld["spoil"] == "directory":
                os.mkdir(bad)
            ctx.fault(f"file-{ld['spoil']}")
            try:
                pb.load_coherence_data(bad)
            except Exception as e:  # noqa: BLE001
                ctx.event("unusable file", ld["spoil"], type(e).__name__)
            else:
                raise Violation("unusable-accepted", f"load {n}: an unusable file ({ld['spoil']}) was accepted")
            _unchanged(pb, before, f"load {n}: failed load ({ld['spoil']})")
        if ld["fault"]:
            f = ld["fault"]

            def count():
                disk.arm(data, ["read", "open"], chunk=ld["chunk"] or 64)
                pb.load_coherence_data(name)
                return disk.disarm()[0]

            k = seams.in_fork(count)
            disk.arm(data, ["read", "open"], at=int(f["frac"] * k), kind=f["kind"], err=f["err"], chunk=ld["chunk"] or 64)
            try:
                pb.load_coherence_data(name)
                failed = None
            except Exception as e:  # noqa: BLE001
                failed = type(e).__name__
            _, fired = disk.disarm()
            ctx.fault(f"read-{f['kind']}", int(fired > 0))
            ctx.schedule_points += k
            ctx.event("read fault", f["kind"], int(f["frac"] * k), "of", k, failed)
            if failed is None:
                _compare(_stored(pb), want, f"load {n} under a read {f['kind']}")
            else:
                if not fired or f["kind"] in ("eintr", "short"):
                    raise Violation("good-file-refused", f"load {n}: {failed} although the reads {'were only short or interrupted' if fired else 'all succeeded'}")
                _unchanged(pb, before, f"load {n}: failed load (read error)")
        if ld["chunk"]:
            disk.arm(data, ["read"], chunk=ld["chunk"])
            ctx.fault("short-reads")
        how = "load"
        try:
            if ld["how"] == "calibrate" and ld["c"]["nsep"] * ld["c"]["nfreq"] <= 12:
                how = "calibrate"
                try:
                    C.run(pb, spec, name)
                except (ValueError, RuntimeError) as e:
                    how = type(e).__name__
                C.start(pb, spec)
            else:
                pb.load_coherence_data(name)
        finally:
            if ld["chunk"]:
                disk.disarm()
        if open(path, "rb").read() != raw0:
            raise Violation("file-modified", f"load {n} changed the measurement file")
        _compare(_stored(pb), want, f"load {n} ({ld['order']}, {len(rows)} records, grid {want['u'].shape})")
        if cut:
            ctx.fault("record-cut-short")
        if ld.get("replace") and len(rows) > 1 and not cut and not ld["dup"]:
            # the file is replaced by another of the same length and time stamp, then loaded again
            st = os.stat(path)
            rows = [(*r[:4], *q[4:]) for r, q in zip(rows, rows[1:] + rows[:1])]
            _write(path, ld, rows)
            os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
            pb.load_coherence_data(name)
            ctx.fault("file-replaced")
            _compare(_stored(pb), _grid(rows), f"load {n} after the file was replaced")
        ctx.fault(f"order-{ld['order']}")
        ctx.fault("lost-records", int(np.isnan(want["u"]).sum()))
        if ld["dup"]:
            ctx.fault("duplicated-records")
        ctx.event(how, ld["order"], want["u"].shape, "missing", int(np.isnan(want["u"]).sum()), ld["idx"], "dup", ld["dup"])
        ctx.probe(how)


def _unchanged(pb, before, where):
    now = _stored(pb)
    if before is None:
        return
    if now is None or any(not _equal(now[k], before[k]) for k in before):
        raise Violation("half-loaded", f"{where} changed the measurements loaded before")
