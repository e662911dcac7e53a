"""Runner shared by every check: case scheduling, workers, monitors' counters, verdicts, evidence.

A check module (``checks/<ID>.py``) defines

* ``ID``, ``RULE``, ``ASSUMPTIONS``;
* ``FAMILIES``: list of :class:`Family` (workload generator + oracle in one function);
* ``FLOORS``: ``{counter: minimum}`` - what the monitors must have *observed* for the
  run to count as an answer (otherwise exit 2: inconclusive, never 0);
* ``WARM``: names of the numba kernels compiled in the parent before forking.

A family function receives ``(ctx, rng, i)``: every random choice comes from ``rng``, which
is derived from (VERIF_SEED, property, family, i), so any case can be replayed alone.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from dataclasses import dataclass
from pathlib import Path
from typing import Any, Callable

import numpy as np

import ref

VERIF = Path(__file__).resolve().parent.parent
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


@dataclass
class Family:
    name: str
    fn: Callable
    quick: int
    thorough: int
    cpu_limit: float = 120.0  # CPU seconds for one case; nominal cases take well under 2 s
    # families whose case index enumerates a finite set say so
    exhaustive: bool = False


class Violation(Exception):
    """The oracle rejected an observation of the real code."""

    def __init__(self, mech: str, msg: str, **detail: Any) -> None:
        super().__init__(f"[{mech}] {msg}")
        self.mech = mech
        self.msg = msg
        self.detail = detail


class Skip(Exception):
    """The generated case is outside the property's preconditions (counted, never a verdict)."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, pid: str, seed: int, tier: str) -> None:
        self.pid, self.seed, self.tier = pid, seed, tier
        self.counters: Counter[str] = Counter()
        self.sets: dict[str, set[str]] = {}
        self.samples: list[Any] = []
        self._nontrivial_flag = False
        self._keys: list[str] = []
        self.replaying = False

    # monitors report what they saw through these three
    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] += int(n)

    def distinct(self, name: str, value: Any) -> None:
        s = self.sets.setdefault(name, set())
        if len(s) < 200000:
            s.add(_h(value))

    def nontrivial(self, key: Any) -> None:
        """Mark the current case as non-trivial, identified by ``key`` for distinctness."""
        self.distinct("__nontrivial__", key)

    def sample(self, obj: Any) -> None:
        if len(self.samples) < 3:
            self.samples.append(_short(obj))

    # oracles
    def fail(self, mech: str, msg: str, **detail: Any) -> None:
        raise Violation(mech, msg, **{k: _short(v) for k, v in detail.items()})

    def check(self, cond: Any, mech: str, msg: str = "", **detail: Any) -> None:
        self.counters["oracle_checks"] += 1
        if not cond:
            self.fail(mech, msg, **detail)


def _short(obj: Any, n: int = 1500) -> str:
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + "..."


def _h(value: Any) -> str:
    if not isinstance(value, (bytes, str)):
        value = repr(value)
    if isinstance(value, str):
        value = value.encode()
    return hashlib.blake2b(value, digest_size=8).hexdigest()


def case_rng(seed: int, pid: str, family: str, i: int) -> np.random.Generator:
    d = hashlib.sha256(f"{seed}|{pid}|{family}|{i}".encode()).digest()
    return np.random.default_rng(np.frombuffer(d, dtype=np.uint32))


def exc_mech(e: BaseException) -> str:
    """Name an unexpected exception by type and the innermost graphix frame that raised it."""
    where = "?"
    for fr in traceback.extract_tb(e.__traceback__):
        if "/graphix/" in fr.filename and "/verif/" not in fr.filename:
            where = f"{Path(fr.filename).name}:{fr.name}"
    return f"exception:{type(e).__name__}:{where}"


def _raised_in_graphix(e: BaseException) -> bool:
    return any("/graphix/" in fr.filename and "/verif/" not in fr.filename for fr in traceback.extract_tb(e.__traceback__))


def _alarm(signum, frame):  # noqa: ARG001
    raise CaseTimeout


def run_case(ctx: Ctx, fam: Family, i: int):
    """Run one case. Return None, or a dict describing a violation / harness error."""
    rng = case_rng(ctx.seed, ctx.pid, fam.name, i)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, fam.cpu_limit)
    base = {"family": fam.name, "index": i}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fam.fn(ctx, rng, i)
        return None
    except (Skip, ref.TooBig) as e:
        ctx.count(f"skipped:{fam.name}")
        if str(e):
            ctx.count(f"skip_reason:{e}")
        return None
    except Violation as v:
        return {**base, "kind": "violation", "mech": v.mech, "msg": v.msg, "detail": v.detail}
    except CaseTimeout as e:
        tb = traceback.format_exc(limit=-6)
        return {
            **base,
            "kind": "violation" if _raised_in_graphix(e) else "harness",
            "mech": f"no-termination:{fam.name}",
            "msg": f"operation did not complete within {fam.cpu_limit:.0f} s of CPU time (nominal: well under 2 s)",
            "detail": {"traceback": tb},
        }
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc(limit=-12)
        kind = "violation" if _raised_in_graphix(e) else "harness"
        return {**base, "kind": kind, "mech": exc_mech(e), "msg": f"{type(e).__name__}: {e}"[:600], "detail": {"traceback": tb}}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def schedule(families: list[Family], tier: str, scale: int = 1) -> list[tuple[int, int]]:
    """Interleave the families proportionally, so a truncated run still covers all of them."""
    items = []
    for fi, f in enumerate(families):
        n = min(f.quick * (1 if f.exhaustive else scale), max(f.quick, f.thorough)) if tier == "quick" else f.thorough
        for k in range(n):
            items.append(((k + 0.5) / n, fi, k))
    items.sort()
    return [(fi, k) for _, fi, k in items]


class _Shared:
    """A cross-process counter (dynamic work distribution) without extra threads."""

    def __init__(self) -> None:
        import mmap

        self.m = mmap.mmap(-1, 4096)
        self.r, self.w = os.pipe()
        os.write(self.w, b"x")

    def next(self) -> int:
        os.read(self.r, 1)
        try:
            v = int.from_bytes(self.m[:8], "little")
            self.m[:8] = (v + 1).to_bytes(8, "little")
        finally:
            os.write(self.w, b"x")
        return v

    def value(self) -> int:
        return int.from_bytes(self.m[:8], "little")

    def mark(self, wid: int, idx: int) -> None:
        """Record what worker `wid` is doing: (idx+1, wall time)."""
        off = 64 + 16 * wid
        self.m[off : off + 8] = (idx + 1).to_bytes(8, "little")
        self.m[off + 8 : off + 16] = int(time.time() * 1000).to_bytes(8, "little")

    def read_mark(self, wid: int):
        off = 64 + 16 * wid
        return (
            int.from_bytes(self.m[off : off + 8], "little") - 1,
            int.from_bytes(self.m[off + 8 : off + 16], "little") / 1000,
        )


MAX_VIOL_PER_WORKER = 12


def worker(wid: int, mod, ctx: Ctx, sched, shared: _Shared, deadline: float, outfd: int) -> None:
    viols: list[dict] = []
    done = 0
    per_family: Counter[str] = Counter()
    seen_mech: Counter[str] = Counter()
    slowest = (0.0, "")
    while time.time() < deadline:
        k = shared.next()
        if k >= len(sched):
            break
        fi, i = sched[k]
        shared.mark(wid, k)
        t = time.time()
        res = run_case(ctx, mod.FAMILIES[fi], i)
        dt = time.time() - t
        if dt > slowest[0]:
            slowest = (dt, f"{mod.FAMILIES[fi].name}[{i}]")
        done += 1
        per_family[mod.FAMILIES[fi].name] += 1
        if res is not None:
            seen_mech[res["mech"]] += 1
            if seen_mech[res["mech"]] <= 3 and len(viols) < 60:
                viols.append(res)
            hard = sum(n for m, n in seen_mech.items() if m not in KNOWN_MECHS)
            if hard >= MAX_VIOL_PER_WORKER or res["mech"].startswith("no-termination"):
                break
    shared.mark(wid, -1)
    payload = pickle.dumps(
        {
            "viols": viols,
            "mechs": dict(seen_mech),
            "done": done,
            "per_family": dict(per_family),
            "counters": dict(ctx.counters),
            "sets": ctx.sets,
            "samples": ctx.samples,
            "slowest": slowest,
        }
    )
    with os.fdopen(outfd, "wb") as f:
        f.write(len(payload).to_bytes(8, "little") + payload)


KNOWN_MECHS: set[str] = set()


def load_known(pid: str) -> dict[str, dict]:
    f = VERIF / "known_findings.json"
    if not f.exists():
        return {}
    return {e["mechanism"]: e for e in json.loads(f.read_text())["known"] if e["property"] == pid}


def main(argv: list[str]) -> int:
    t0 = time.time()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and argv[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    only = argv[argv.index("--family") + 1] if "--family" in argv else None

    import lazyjit

    lazyjit.install()
    sys.path.insert(0, str(VERIF / "checks"))
    try:
        mod = importlib.import_module(pid)
    except Exception as e:  # graphix does not even import: every property is unanswerable, say so
        traceback.print_exc()
        if _raised_in_graphix(e):
            print(f"VIOLATION property={pid} replay={write_replay(pid, dict(family='import', index=0, mech=exc_mech(e), msg=str(e), detail={}), seed, tier)}")
            return 1
        return 2
    known = load_known(pid)
    KNOWN_MECHS.update(known)

    if replay:
        r = json.loads(Path(replay).read_text())
        fam = next(f for f in mod.FAMILIES if f.name == r["family"])
        ctx = Ctx(pid, r["seed"], r["tier"])
        ctx.replaying = True
        res = run_case(ctx, fam, r["index"])
        print(json.dumps(res, indent=1, default=str))
        if res and res["kind"] == "violation":
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        return 0 if res is None else 2

    warm = getattr(mod, "WARM", ())
    if warm == "all":
        lazyjit.warm()
    elif warm:
        lazyjit.warm(*warm)
    if hasattr(mod, "setup"):
        mod.setup()
    families = mod.FAMILIES if only is None else [f for f in mod.FAMILIES if f.name == only]
    mod.FAMILIES = families
    sched = schedule(families, tier, getattr(mod, "QUICK_SCALE", 1))
    t_ready = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "720"))
    deadline = t0 + budget
    shared = _Shared()
    procs = []
    for wid in range(NWORKERS):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        p = os.fork()
        if p == 0:
            os.close(r)
            code = 0
            try:
                os.setpgid(0, 0)  # helper processes started by libraries are ended with the worker
                worker(wid, mod, Ctx(pid, seed, tier), sched, shared, deadline, w)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(w)
        procs.append((p, r))

    # Parent: collect, and watch for workers stuck where no Python signal can reach them.
    import select

    bufs = {r: b"" for _, r in procs}
    open_fds = set(bufs)
    killed: dict[int, int] = {}
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 2.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            bufs[fd] += chunk
            # Helper processes may hold the pipe open after the worker is done.
            if not chunk or (len(bufs[fd]) >= 8 and len(bufs[fd]) >= 8 + int.from_bytes(bufs[fd][:8], "little")):
                open_fds.discard(fd)
        for wid, (p, r) in enumerate(procs):
            if r in open_fds:
                idx, since = shared.read_mark(wid)
                if idx >= 0 and time.time() - since > 420:
                    killed[wid] = idx
                    os.kill(p, signal.SIGKILL)
    agg = {"viols": [], "mechs": Counter(), "done": 0, "per_family": Counter(), "counters": Counter(), "sets": {}, "samples": [], "slowest": (0.0, "")}
    harness_errors = []
    for wid, (p, r) in enumerate(procs):
        _, status = os.waitpid(p, 0)
        try:
            os.killpg(p, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if len(bufs[r]) > 8 and len(bufs[r]) == 8 + int.from_bytes(bufs[r][:8], "little"):
            d = pickle.loads(bufs[r][8:])
            agg["viols"] += d["viols"]
            agg["mechs"].update(d["mechs"])
            agg["done"] += d["done"]
            agg["per_family"].update(d["per_family"])
            agg["counters"].update(d["counters"])
            for k, s in d["sets"].items():
                agg["sets"].setdefault(k, set()).update(s)
            agg["samples"] += d["samples"]
            agg["slowest"] = max(agg["slowest"], d["slowest"])
        else:
            idx, _ = shared.read_mark(wid)
            fam = families[sched[idx][0]].name if 0 <= idx < len(sched) else "?"
            ci = sched[idx][1] if 0 <= idx < len(sched) else -1
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            if wid in killed:
                agg["viols"].append(dict(family=fam, index=ci, kind="violation", mech=f"no-termination:{fam}", msg="stuck outside the interpreter for 420 s", detail={}))
            elif sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                agg["viols"].append(dict(family=fam, index=ci, kind="violation", mech=f"crash:signal{sig}", msg=f"worker died with signal {sig}", detail={}))
            else:
                harness_errors.append(f"worker {wid} ended with status {status} during {fam}[{ci}]")

    viols = sorted((v for v in agg["viols"] if v["kind"] == "violation"), key=lambda v: (v["family"], v["index"]))
    harness_errors += [f"{v['family']}[{v['index']}] {v['mech']} {v['msg']}\n{v['detail'].get('traceback','')}" for v in agg["viols"] if v["kind"] == "harness"]
    unlisted = [v for v in viols if v["mech"] not in known]
    for mech, e in sorted(known.items()):
        hit = next((v for v in viols if v["mech"] == mech), None)
        if hit is not None:
            print(f"KNOWN-FINDING: property={pid} {e['what']} (case {hit['family']}[{hit['index']}])")

    nontrivial = len(agg["sets"].get("__nontrivial__", ()))
    short = {k: (agg["counters"].get(k, 0), v) for k, v in getattr(mod, "FLOORS", {}).items() if agg["counters"].get(k, 0) < v}
    truncated = agg["done"] < len(sched)
    wall = time.time() - t0
    coverage = {
        "evaluations": agg["done"],
        "distinct_nontrivial": nontrivial,
        "rule": mod.RULE,
        "samples": agg["samples"][:6],
        "cases_per_workload": dict(sorted(agg["per_family"].items())),
        "monitor_observations": dict(sorted(agg["counters"].items())),
        "distinct_observed": {k: len(s) for k, s in sorted(agg["sets"].items()) if k != "__nontrivial__"},
        "cases_planned": len(sched),
        "truncated_by_deadline": truncated,
        "slowest_case": {"s": round(agg["slowest"][0], 2), "case": agg["slowest"][1]},
        "startup_s": round(t_ready - t0, 1),
    }
    if not agg["samples"]:
        coverage["samples"] = ["(no sample recorded)"]
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(
        json.dumps(
            {
                "property": pid,
                "tier": tier,
                "seed": seed,
                "level": "exploration",
                "coverage": coverage,
                "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
                "wall_s": round(wall, 2),
                "violations": len(unlisted),
            },
            indent=1,
        )
        + "\n"
    )
    print(f"{pid} {tier} seed={seed}: {agg['done']}/{len(sched)} cases, {nontrivial} distinct non-trivial, {agg['counters'].get('oracle_checks',0)} oracle checks, {wall:.1f} s (startup {t_ready-t0:.1f}, slowest {agg['slowest'][0]:.1f}s {agg['slowest'][1]})")
    for k, v in sorted(agg["counters"].items()):
        if k.startswith("skip"):
            print(f"  {k} = {v}")
    if unlisted:
        shown = set()
        for v in unlisted:
            if v["mech"] in shown:
                continue
            shown.add(v["mech"])
            path = write_replay(pid, v, seed, tier)
            print(f"  {v['family']}[{v['index']}] {v['mech']}: {v['msg']}")
            for k, d in v["detail"].items():
                print(f"      {k}: {d}"[:1800])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness_errors:
        print("INCONCLUSIVE: harness error(s)")
        for h in harness_errors[:5]:
            print("  ", h)
        return 2
    if short:
        print(f"INCONCLUSIVE: monitors observed too little: {short}")
        return 2
    return 0


def write_replay(pid: str, v: dict, seed: int, tier: str) -> str:
    d = VERIF / "evidence" / "replay"
    d.mkdir(parents=True, exist_ok=True)
    f = d / f"{pid}-{_h(v['mech'] + v['family'] + str(v['index']))}.json"
    f.write_text(json.dumps({"property": pid, "seed": seed, "tier": tier, **v}, indent=1, default=str) + "\n")
    return str(f.relative_to(VERIF))
