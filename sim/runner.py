"""Drives worker processes: seeded search, shrinking, replay, evidence."""
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("PMM_SIM_PYTHON", "/opt/venv/bin/python")
JOB_LIMIT = 150.0
XLA = (
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
    " --xla_cpu_use_fusion_emitters=false --xla_cpu_multi_thread_eigen=false"
    " --xla_cpu_parallel_codegen_split_count=1"
)


def cores():
    return sorted(os.sched_getaffinity(0))


class Hang(Exception):
    pass


class Died(Exception):
    pass


class Worker:
    """One worker process.  Its configuration is part of a run's identity."""

    def __init__(self, core, x64, hashseed, tmp):
        self.core, self.x64, self.hashseed, self.tmp = core, x64, hashseed, tmp
        self.proc = None
        self.jobs = 0

    def config(self):
        return {"x64": self.x64, "hashseed": self.hashseed}

    def start(self):
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=str(self.hashseed),
            PYTHONDONTWRITEBYTECODE="1",
            JAX_PLATFORMS="cpu",
            XLA_FLAGS=XLA,
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            TF_CPP_MIN_LOG_LEVEL="3",
            PMM_SIM_X64="1" if self.x64 else "0",
            PMM_SIM_CORE=str(self.core),
            PMM_SIM_TMP=self.tmp,
            TMPDIR=self.tmp,
        )
        if os.environ.get("PMM_SIM_SHARE"):
            # workers share what XLA has compiled
            env.update(
                JAX_COMPILATION_CACHE_DIR=os.path.join(self.tmp, "xla"),
                JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
                JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
            )
        env.pop("JAX_ENABLE_X64", None)
        env.pop("PYTHONPATH", None)
        self.err = open(os.path.join(self.tmp, f"w{id(self)}.err"), "ab")
        self.proc = subprocess.Popen(
            [PYTHON, "-m", "sim.worker"],
            cwd=HERE,
            env=env,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            text=True,
            start_new_session=True,
        )
        self.lines = queue.Queue()
        threading.Thread(target=self._pump, args=(self.proc,), daemon=True).start()
        first = self._get(120)
        assert first.get("ready")
        self.jobs = 0

    def _pump(self, proc):
        q = self.lines
        for line in proc.stdout:
            q.put(line)
        q.put(None)

    def _get(self, limit):
        try:
            line = self.lines.get(timeout=limit)
        except queue.Empty:
            raise Hang()
        if line is None:
            raise Died(self.tail())
        return json.loads(line)

    def tail(self):
        try:
            with open(self.err.name, "rb") as f:
                return f.read()[-3000:].decode("utf8", "replace")
        except OSError:
            return ""

    def stop(self):
        p, self.proc = self.proc, None
        if p is None:
            return
        try:
            p.kill()
        except OSError:
            pass
        p.wait()
        self.err.close()

    def run(self, job, limit=JOB_LIMIT):
        if self.proc is not None and self.jobs >= 60:
            self.stop()
        if self.proc is None:
            self.start()
        self.jobs += 1
        try:
            self.proc.stdin.write(json.dumps(job) + "\n")
            self.proc.stdin.flush()
            res = self._get(limit)
        except (Hang, Died, BrokenPipeError) as e:
            self.stop()
            if isinstance(e, Hang):
                res = {
                    "status": "hang",
                    "kind": "hang",
                    "msg": f"the run did not end within {limit:.0f} s",
                }
            else:
                res = {
                    "status": "died",
                    "kind": "process-died",
                    "msg": "the process died: " + str(e)[-1500:],
                }
            res.update(
                choices=None, loghash="", faults={}, cov=[], stats={}, events=[], wall=0
            )
        if res.get("rss", 0) > 3000:
            self.stop()
        res["config"] = self.config()
        return res


class Pool:
    def __init__(self, n=None):
        self.tmp = tempfile.mkdtemp(prefix="pmm-sim-pool-")
        cs = cores()
        n = n or min(8, len(cs))
        self.workers = [
            Worker(cs[i % len(cs)], i % 2 == 1, 11 + 7 * i, self.tmp) for i in range(n)
        ]

    def close(self):
        for w in self.workers:
            w.stop()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def by_x64(self, x64):
        ws = [w for w in self.workers if w.x64 == x64]
        if not ws:
            w = self.workers[0]
            w.stop()
            w.x64 = x64
            ws = [w]
        return ws


def search(pool, prop, tier, seed, seconds, max_runs, on_result):
    """Every worker draws seeds of its own numeric class until the time or the
    number of runs is used up, or somebody found a violation."""
    stop = threading.Event()
    lock = threading.Lock()
    counters = {False: 0, True: 0}
    total = [0]
    t_end = time.monotonic() + seconds

    def loop(w):
        while not stop.is_set() and time.monotonic() < t_end:
            with lock:
                if total[0] >= max_runs:
                    return
                total[0] += 1
                k = counters[w.x64]
                counters[w.x64] += 1
            job = {
                "prop": prop,
                "tier": tier,
                "seed": f"{prop}/{seed}/{'d' if w.x64 else 's'}/{k}",
            }
            job["id"] = job["seed"]
            res = w.run(job)
            with lock:
                if on_result(job, res):
                    stop.set()

    ts = [threading.Thread(target=loop, args=(w,)) for w in pool.workers]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def is_violation(res):
    return res["status"] in ("violation", "hang", "died")


def shrink(pool, prop, tier, res, seconds):
    """Simplify the choices of a failing run, keeping the kind of violation."""
    best = list(res["choices"])
    best_res = res
    kind = res["kind"]
    ws = pool.by_x64(res["config"]["x64"])
    t_end = time.monotonic() + seconds
    tried = set()
    runs = 0

    def simplicity(c):
        return (len(c), sum(1 for v in c if v), sum(c))

    def candidates(c):
        n = len(c)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield c[:i] + c[i + size :]
                if any(c[i : i + size]):
                    yield c[:i] + [0] * len(c[i : i + size]) + c[i + size :]
            size //= 2
        for i in range(n):
            if c[i] > 1:
                yield c[:i] + [c[i] // 2] + c[i + 1 :]
                yield c[:i] + [c[i] - 1] + c[i + 1 :]
            if c[i] == 1:
                yield c[:i] + [0] + c[i + 1 :]

    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        gen = candidates(best)
        lock = threading.Lock()
        found = []

        def loop(w):
            nonlocal runs
            while not found and time.monotonic() < t_end:
                with lock:
                    for c in gen:
                        while c and c[-1] == 0:
                            c = c[:-1]
                        if tuple(c) not in tried and simplicity(c) < simplicity(best):
                            tried.add(tuple(c))
                            break
                    else:
                        return
                    runs += 1
                r = w.run(
                    {"prop": prop, "tier": tier, "choices": c, "id": "shrink"}, 60
                )
                if r["status"] == "violation" and r["kind"] == kind:
                    got = list(r["choices"])
                    while got and got[-1] == 0:
                        got.pop()
                    with lock:
                        if simplicity(got) < simplicity(best):
                            found.append((simplicity(got), got, r))

        ts = [threading.Thread(target=loop, args=(w,)) for w in ws]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if found:
            found.sort(key=lambda f: f[0])
            best, best_res = found[0][1], found[0][2]
            improved = True
    return best, best_res, runs


def replay(spec, tmp=None):
    """Run a replay file's execution in a fresh process."""
    own = tmp or tempfile.mkdtemp(prefix="pmm-sim-replay-")
    w = Worker(cores()[0], spec["config"]["x64"], spec["config"]["hashseed"], own)
    job = {"prop": spec["property"], "tier": spec.get("tier", "quick"), "events": True}
    if spec.get("choices") is not None:
        job["choices"] = spec["choices"]
    else:
        job["seed"] = spec["seed"]
    try:
        return w.run(job, 300)
    finally:
        w.stop()
        if tmp is None:
            shutil.rmtree(own, ignore_errors=True)
