"""Results depend on the arguments and the generator only: repetition, order, hash seeds, processes, threads."""

import os
import pickle
import subprocess
import sys
import threading
from pathlib import Path

import numpy as np

import workload
from core import Family

ID = "P37"
RULE = (
    "Scripted scenarios over the whole library (circuits through every pass and export, open graphs through every flow and extraction, raw patterns, noise, random objects, graph states, fusion), run again after other scenarios, in shuffled order, "
    "step by step alternating in one thread, in several threads switching every few bytecodes, and in processes with other hash seeds and thread counts. Oracle: every step equals the one observed when the scenario ran first, texts exactly, arrays to 1e-9. "
    "Non-trivial: a scenario with at least five steps; distinct = scenario number; interleavings = distinct sequences of (scenario, step) across threads."
)
ASSUMPTIONS = ["numba's thread pool is the TBB one installed here; its workqueue layer does not support concurrent callers", "scenarios share no object, only module state"]
FLOORS = {"containers_overwritten": 20000, "steps_compared": 20000, "scenarios": 700, "thread_runs": 120, "context_switches": 5000, "interleavings": 120, "alternations": 400, "processes": 8, "hash_seeds": 8, "raised_steps": 20}
WARM = "all"
CHILD = Path(workload.__file__).with_name("repro_child.py")


def steps(j):
    return list(workload.scenario(j))


def same(ctx, j, a, b, mech, how):
    d = workload.differ(a, b)
    ctx.check(d is None, mech, f"scenario {workload.SCENARIOS[j % len(workload.SCENARIOS)].__name__} {j} gives another result {how}: {d}"[:1500], scenario=j)
    ctx.count("steps_compared", len(a))
    ctx.count("scenarios")
    ctx.count("raised_steps", sum(n == "raised" for n, _ in a))
    if len(a) >= 5:
        ctx.nontrivial(j)
    ctx.distinct("step kinds", workload.SCENARIOS[j % len(workload.SCENARIOS)].__name__)


def numbers(rng, n):
    return [int(x) for x in rng.choice(100000, n, replace=False)]


def again(ctx, rng, i):
    """Repeated, in another order, between other scenarios."""
    js = numbers(rng, 6)
    first = {j: steps(j) for j in js}
    if i < 3:
        ctx.sample({"scenarios": js, "steps": {j: [n for n, _ in s] for j, s in first.items()}})
    for _ in range(2):
        for j in rng.permutation(js):
            same(ctx, int(j), first[int(j)], steps(int(j)), "repeat", "when run again")


def alternate(ctx, rng, i):
    """Two to four scenarios advanced in turn, one step at a time; one of them twice, as two objects."""
    js = numbers(rng, int(rng.integers(1, 4)))
    js.append(js[0])
    first = {j: steps(j) for j in js}
    live = [(j, workload.scenario(j), []) for j in js]
    while live:
        k = int(rng.integers(len(live)))
        j, it, got = live[k]
        try:
            got.append(next(it))
            ctx.count("alternations")
        except StopIteration:
            same(ctx, j, first[j], got, "alternating", "when other scenarios run between its steps")
            live.pop(k)


def threads(ctx, rng, i):
    """Several threads, each with its own scenarios (some the same), switched as often as possible."""
    pool = numbers(rng, 4)
    n = int(rng.integers(2, 6))
    if i % 2:
        pool = [x - x % len(workload.SCENARIOS) + i // 2 % len(workload.SCENARIOS) for x in numbers(rng, n)]
        first = {j: steps(j) for j in pool}
        plans = [[j] for j in pool]
    else:
        first = {j: steps(j) for j in pool}
        plans = [[pool[int(x)] for x in rng.permutation(4)[: int(rng.integers(1, 4))]] for _ in range(n)]
    events, results, errors = [], [[] for _ in range(n)], []
    barrier = threading.Barrier(n)

    done = [False] * n
    lockstep = i % 2 == 1

    def work(t):
        try:
            if not lockstep:
                barrier.wait(120)
                for j in plans[t]:
                    got = []
                    for s in workload.scenario(j):
                        events.append((t, j, s[0]))
                        got.append(s)
                    results[t].append((j, got))
                return
            # all threads are at the same step of the same kind of program
            (j,) = plans[t]
            it, got = workload.scenario(j), []
            results[t].append((j, got))
            while True:
                barrier.wait(120)
                if not done[t]:
                    try:
                        got.append(next(it))
                        events.append((t, j, got[-1][0]))
                    except StopIteration:
                        done[t] = True
                barrier.wait(120)
                if all(done):
                    return
        except BaseException as e:  # noqa: BLE001
            errors.append((t, e))
            barrier.abort()

    old = sys.getswitchinterval()
    sys.setswitchinterval(float(10.0 ** -rng.uniform(4, 6.5)))
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise next((e for _, e in errors if not isinstance(e, threading.BrokenBarrierError)), errors[0][1])
    for t in range(n):
        assert [j for j, _ in results[t]] == plans[t]
        for j, got in results[t]:
            same(ctx, j, first[j], got, "threads", f"in one of {n} concurrent threads")
    sw = sum(a[0] != b[0] for a, b in zip(events, events[1:]))
    ctx.count("thread_runs")
    ctx.count("context_switches", sw)
    ctx.distinct("interleavings", events)
    ctx.count("interleavings", int(sw >= n))


def processes(ctx, rng, i):
    """Another process, with another hash seed, order and number of threads."""
    js = numbers(rng, 60 if ctx.tier == "quick" else 150)
    hs = str(int(rng.integers(1, 2**32)))
    nt = str(int(rng.integers(1, 5)))
    r, w = os.pipe()
    env = {**os.environ, "PYTHONHASHSEED": hs, "NUMBA_NUM_THREADS": nt}
    p = subprocess.Popen([sys.executable, "-W", "ignore", str(CHILD), str(w), ",".join(map(str, reversed(js)))], pass_fds=[w], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    os.close(w)
    mine = {j: steps(j) for j in js}
    with os.fdopen(r, "rb") as f:
        data = f.read()
    err = p.stderr.read().decode(errors="replace")
    p.wait()
    if not data:
        raise RuntimeError(f"child process gave no answer: {err[-800:]}")  # harness, unless graphix itself fails, which other families show
    d = pickle.loads(data)
    for j in js:
        same(ctx, j, mine[j], d["steps"][j], "process", f"in a process with hash seed {hs} and {nt} threads")
    ctx.count("processes")
    ctx.count("hash_seeds", int(d["hash"] != hash("graphix")))


def vandal(ctx, rng, i):
    """The same program after everything it returned before was overwritten by the caller."""
    js = numbers(rng, 6)
    first = {j: steps(j) for j in js}
    workload.KEPT = []
    try:
        for j in js:
            same(ctx, j, first[j], steps(j), "repeat", "when run again")
        kept = workload.KEPT
    finally:
        workload.KEPT = None
    ctx.count("results_kept", len(kept))
    ctx.count("containers_overwritten", workload.vandalise(kept))
    for j in js:
        same(ctx, j, first[j], steps(j), "leak", "after the caller overwrote what it had returned")


FAMILIES = [
    Family("vandal", vandal, 120, 1500),
    Family("again", again, 60, 600),
    Family("alternate", alternate, 60, 600),
    Family("threads", threads, 160, 1800),
    Family("processes", processes, 10, 60),
]
