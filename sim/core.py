"""Run loop: one integer seed decides every plan; every plan is one exactly repeatable execution in its own process."""

import copy
import hashlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import boot


class Violation(Exception):
    """The property under check was observed to fail."""

    def __init__(self, cls: str, msg: str):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Rng(random.Random):
    """The only source of choice. Derived from (VERIF_SEED, property, run index) and nothing else."""

    def chance(self, p: float) -> bool:
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]


def derive(seed: int, prop: str, idx: int) -> Rng:
    h = hashlib.sha256(f"{seed}|{prop}|{idx}".encode()).digest()
    return Rng(int.from_bytes(h[:16], "big"))


class Ctx:
    """What one simulated run records. Recording never draws randomness or reads a clock."""

    def __init__(self, scratch: str):
        self.scratch = scratch
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.events: list[str] = []
        self.schedule_points = 0
        self.sim_seconds = 0.0
        self.path = hashlib.sha256()

    def fault(self, kind: str, n: int = 1) -> None:
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.event("fault", kind, n)

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *what) -> None:
        line = " ".join(str(w) for w in what)
        if len(self.events) < 400:
            self.events.append(line)
        self.path.update(line.encode() + b"\n")

    def dir(self, name: str) -> str:
        p = os.path.join(self.scratch, name)
        os.makedirs(p, exist_ok=True)
        return p


def _blame(exc: BaseException) -> bool:
    """True if the exception passed through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.PKG):
            return True
        tb = tb.tb_next
    return False


def _reset_globals(plan: dict) -> None:
    import numpy as np
    import torch

    s = int(plan.get("env_seed", 0)) & 0x7FFFFFFF
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)
    torch.set_default_dtype(torch.float32)


def _child(prop, plan: dict, wfd: int, scratch: str, debug: bool) -> None:
    """Body of one run; never returns."""
    status = {"status": "harness", "cls": "", "msg": "no result"}
    ctx = Ctx(scratch)
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        os.setpgid(0, 0)
        os.makedirs(scratch)
        os.chdir(scratch)
        if not debug:
            null = os.open("/dev/null", os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            os.dup2(null, 2)
        _reset_globals(plan)
        try:
            prop.execute(plan, ctx)
            status = {"status": "ok", "cls": "", "msg": ""}
        except Violation as v:
            status = {"status": "violation", "cls": v.cls, "msg": v.msg}
        except BaseException as e:  # noqa: BLE001
            text = "".join(traceback.format_exception(e))[-3000:]
            if _blame(e):
                status = {"status": "violation", "cls": f"unexpected-{type(e).__name__}", "msg": text}
            else:
                status = {"status": "harness", "cls": type(e).__name__, "msg": text}
        status.update(
            faults=ctx.faults,
            probes=ctx.probes,
            events=ctx.events,
            points=ctx.schedule_points,
            sim_seconds=ctx.sim_seconds,
            digest=ctx.path.hexdigest()[:24],
        )
    finally:
        try:
            data = json.dumps(status).encode()
            while data:
                data = data[os.write(wfd, data) :]
        finally:
            os._exit(0)


def prepare(prop) -> None:
    """Warm this process up and start the other interpreters a property compares with."""
    if getattr(prop, "WORLDS", False):
        from . import zygote

        zygote.start(prop.ID)
    if hasattr(prop, "warm"):
        prop.warm()


class Runner:
    """Forks one process per run, at most `workers` at a time; results do not depend on the worker count."""

    def __init__(self, prop, workers: int, run_timeout: float = 240.0, debug: bool = False):
        self.prop, self.workers, self.run_timeout, self.debug = prop, workers, run_timeout, debug
        self.n = 0
        self.live: dict[int, dict] = {}

    def start(self, key, plan) -> None:
        r, w = os.pipe()
        self.n += 1
        scratch = os.path.join(boot.scratch_root(), f"r{self.n}")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for other in self.live.values():
                os.close(other["fd"])
            _child(self.prop, plan, w, scratch, self.debug)
        os.close(w)
        self.live[pid] = {"key": key, "plan": plan, "fd": r, "buf": b"", "t": time.monotonic(), "scratch": scratch}

    def _finish(self, pid) -> tuple:
        j = self.live.pop(pid)
        os.close(j["fd"])
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(j["scratch"], ignore_errors=True)
        if j["buf"]:
            try:
                return j["key"], j["plan"], json.loads(j["buf"])
            except ValueError:
                pass
        how = "hang" if j.get("hang") else (f"signal-{os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else "no-result")
        return j["key"], j["plan"], {"status": "died", "cls": how, "msg": f"run process: {how}", "faults": {}, "probes": {}, "events": [], "points": 0, "sim_seconds": 0, "digest": ""}

    def poll(self, timeout=1.0) -> list:
        done = []
        fds = {j["fd"]: pid for pid, j in self.live.items()}
        ready, _, _ = select.select(list(fds), [], [], timeout)
        for fd in ready:
            pid = fds[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                self.live[pid]["buf"] += chunk
            else:
                done.append(self._finish(pid))
        now = time.monotonic()
        for pid, j in list(self.live.items()):
            if now - j["t"] > self.run_timeout:
                j["hang"] = True
                j["buf"] = b""
                done.append(self._finish(pid))
        return done

    def one(self, plan) -> dict:
        self.start(0, plan)
        while True:
            for _, _, res in self.poll():
                return res

    def map(self, plans, deadline=None, stop=None):
        """Yield (key, plan, result) for an iterable of (key, plan)."""
        it = iter(plans)
        exhausted = False
        while True:
            while not exhausted and len(self.live) < self.workers and not (stop and stop()):
                if deadline is not None and time.monotonic() > deadline:
                    exhausted = True
                    break
                try:
                    k, p = next(it)
                except StopIteration:
                    exhausted = True
                    break
                self.start(k, p)
            if not self.live:
                return
            yield from self.poll()


# ---------------------------------------------------------------- minimisation


def _sites(node, path=()):
    """Every list inside the plan, outermost first."""
    if isinstance(node, dict):
        for k in node:
            if not str(k).startswith("_"):
                yield from _sites(node[k], path + (k,))
    elif isinstance(node, list):
        if node and all(isinstance(x, (dict, list)) for x in node):
            yield path
        for i, x in enumerate(node):
            yield from _sites(x, path + (i,))


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _nullable(node, path=()):
    if isinstance(node, dict):
        for k, v in node.items():
            if k in ("fault", "cfg2d") and v is not None:
                yield path + (k,)
            yield from _nullable(v, path + (k,))
    elif isinstance(node, list):
        for i, x in enumerate(node):
            yield from _nullable(x, path + (i,))


def shrink_candidates(prop, plan):
    for path in list(_sites(plan)):
        n = len(_get(plan, path))
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if n - min(size, n - i) < getattr(prop, "MIN_LEN", {}).get(path[-1] if path else "", 0):
                    continue
                c = copy.deepcopy(plan)
                lst = _get(c, path)
                del lst[i : i + size]
                yield c
            size //= 2
    for path in list(_nullable(plan)):
        c = copy.deepcopy(plan)
        _get(c, path[:-1])[path[-1]] = None
        yield c
    if hasattr(prop, "simplify"):
        yield from prop.simplify(copy.deepcopy(plan))


def minimise(prop, runner, plan, cls, budget_s=90.0, max_runs=400):
    end = time.monotonic() + budget_s
    tried = 0
    seen = set()
    progress = True
    while progress and time.monotonic() < end and tried < max_runs:
        progress = False
        for cand in shrink_candidates(prop, plan):
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            if time.monotonic() > end or tried >= max_runs:
                break
            tried += 1
            res = runner.one(cand)
            if res["status"] == "violation" and res["cls"] == cls:
                plan = cand
                progress = True
                break
    return plan, tried


# ---------------------------------------------------------------- driver


def known_findings(prop_id: str) -> list[dict]:
    path = os.path.join(boot.VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == prop_id and e.get("status") == "known":
                    out.append(e)
    return out


def run_check(prop, tier: str, seed: int, runs: int | None, workers: int, debug: bool) -> int:
    t0 = time.monotonic()
    wall0 = time.time()
    budget = {"quick": 420.0, "thorough": 3000.0}[tier]
    n = runs or prop.RUNS[tier]
    print(f"[{prop.ID}] seed={seed} tier={tier} runs={n} workers={workers}", flush=True)
    prepare(prop)
    runner = Runner(prop, workers, debug=debug)
    tally = {"ok": 0, "violation": 0, "harness": 0}
    faults: dict[str, int] = {}
    probes: dict[str, int] = {}
    digests, shapes = set(), set()
    points = 0
    sim_seconds = 0.0
    samples, violations, errors = [], [], []
    stop = lambda: len(violations) >= 3 or len(errors) >= 20  # noqa: E731

    def plans():
        for i in range(n):
            rng = derive(seed, prop.ID, i)
            plan = prop.gen(rng, tier, i)
            plan.setdefault("env_seed", rng.getrandbits(31))
            yield i, plan

    event_log = {}
    retried = set()
    queue = []
    for key, plan, res in runner.map(plans(), deadline=t0 + budget, stop=stop):
        if res["status"] == "died":
            queue.append((key, plan, res))
            continue
        _account(res, key, plan, tally, faults, probes, digests, shapes, samples, violations, errors)
        points += res["points"]
        sim_seconds += res["sim_seconds"]
        event_log[key] = res["digest"] + res["status"] + res["cls"]
    # A run whose process died is repeated alone: a death that repeats is the code's, one that does not is the machine's.
    for key, plan, res in queue[:4]:
        again = Runner(prop, 1, run_timeout=400.0).one(plan)
        if again["status"] == "died":
            again = dict(again, status="violation", cls=f"process-{again['cls']}")
        _account(again, key, plan, tally, faults, probes, digests, shapes, samples, violations, errors)
        points += again["points"]
        sim_seconds += again["sim_seconds"]
        event_log[key] = again["digest"] + again["status"] + again["cls"]

    log_digest = hashlib.sha256("\n".join(f"{k}:{v}" for k, v in sorted(event_log.items())).encode()).hexdigest()[:16]
    known = known_findings(prop.ID)
    code = 0
    reported = 0
    known_hit = set()
    for key, plan, res in sorted(violations, key=lambda v: v[0]):
        match = next((k for k in known if k["class"] == res["cls"] and _matches(k.get("where", {}), plan)), None)
        if match:
            if match["what"] not in known_hit:
                print(f"KNOWN-FINDING: property={prop.ID} {match['what']}", flush=True)
                known_hit.add(match["what"])
            continue
        if reported:
            continue
        print(f"[{prop.ID}] run {key}: {res['cls']}: {res['msg'][-1200:]}", flush=True)
        small, tried = minimise(prop, Runner(prop, 1, debug=debug), plan, res["cls"], 60.0 if tier == "quick" else 300.0)
        final = Runner(prop, 1).one(small)
        if final["status"] != "violation":
            small, final = plan, res
        path = _write_replay(prop, seed, key, tier, small, plan, final, tried)
        fresh = _fresh_replay(path)
        print(f"[{prop.ID}] minimised after {tried} runs; replay in a fresh process: {fresh}", flush=True)
        print(f"VIOLATION property={prop.ID} replay={path}", flush=True)
        reported += 1
        code = 1
    if errors and code == 0:
        for key, plan, res in errors[:3]:
            print(f"HARNESS-ERROR run {key}: {res['cls']}: {res['msg'][-1500:]}", flush=True)
        # A harness error in a few runs leaves those runs undecided; it is never turned into a verdict.
        code = 2 if len(errors) > max(2, n // 50) else 0
    wall = time.monotonic() - t0
    done = sum(tally.values())
    evidence = {
        "property": prop.ID,
        "tier": tier,
        "seed": seed,
        "level": prop.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(shapes),
            "rule": prop.RULE,
            "samples": samples[:6],
            "simulated_runs": done,
            "runs_per_hour": round(done / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(done / max(wall, 1e-9) * 3600),
            "simulated_seconds_covered": round(sim_seconds, 3),
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "schedule_points": points,
            "distinct_histories": len(digests),
            "distinct_measure": "distinct sha256 of the run's event log (operations, faults fired, schedule decisions, outcomes)",
            "event_log_digest": log_digest,
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
            "outcomes": tally,
            "known_findings_hit": sorted(known_hit),
            "workers": workers,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(boot.VERIF, "evidence", f".{prop.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(boot.VERIF, "evidence", f"{prop.ID}.json"))
    print(
        f"[{prop.ID}] {done} runs, {len(digests)} distinct histories, faults {sum(faults.values())}, "
        f"{tally}, {wall:.1f} s, log {log_digest}",
        flush=True,
    )
    del wall0, retried
    return code


def _matches(where: dict, plan: dict) -> bool:
    return all(plan.get(k) == v for k, v in where.items())


def _account(res, key, plan, tally, faults, probes, digests, shapes, samples, violations, errors):
    st = res["status"]
    tally[st] = tally.get(st, 0) + 1
    for k, v in res["faults"].items():
        faults[k] = faults.get(k, 0) + v
    for k, v in res["probes"].items():
        probes[k] = probes.get(k, 0) + v
    digests.add(res["digest"])
    if res["faults"] or res["points"] or res["events"]:
        shapes.add(res["digest"])
    if len(samples) < 6:
        samples.append({"run": key, "events": res["events"][:12], "faults": res["faults"]})
    if st == "violation":
        violations.append((key, plan, res))
    elif st == "harness":
        errors.append((key, plan, res))


def _write_replay(prop, seed, idx, tier, plan, original, res, tried) -> str:
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.ID}-{seed}-{idx}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop.ID,
                "seed": seed,
                "run": idx,
                "tier": tier,
                "class": res["cls"],
                "message": res["msg"],
                "plan": plan,
                "original_plan": original,
                "minimiser_runs": tried,
                "events": res["events"],
                "replay": f"/verif/check.sh --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def _fresh_replay(path: str) -> str:
    env = dict(os.environ)
    env.pop("DRDSIM_CHILD", None)
    env.pop("LD_PRELOAD", None)
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(boot.VERIF, "check.py"), "--replay", path],
            env=env, capture_output=True, text=True, timeout=200, start_new_session=True,
        )
    except subprocess.TimeoutExpired:
        return "timed out"
    line = [x for x in p.stdout.splitlines() if x.startswith("REPLAY")]
    return line[-1] if line else f"exit {p.returncode}"


def run_replay(prop, path: str, debug: bool) -> int:
    rec = json.load(open(path))
    prepare(prop)
    res = Runner(prop, 1, debug=debug).one(rec["plan"])
    for e in res["events"]:
        print("  " + e)
    same = res["status"] == "violation" and res["cls"] == rec["class"]
    print(f"{res['status']} {res['cls']}: {res['msg'][-2000:]}")
    print(f"REPLAY {'reproduced' if same else 'did not reproduce'} {rec['class']}", flush=True)
    if res["status"] == "violation":
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2
