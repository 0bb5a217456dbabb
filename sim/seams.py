"""The environment the library sees: clock, output, signals, files, ambient
randomness.  Every seam is installed for one run and removed afterwards."""
import builtins
import errno
import io
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import uuid

import numpy as np

PKG = "parametricmatrixmodels"

_REAL = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}
_REAL_OPEN = builtins.open
_REAL_UUID4 = uuid.uuid4


class SimCrash(BaseException):
    """The simulated process died here."""


class Patches:
    def __init__(self):
        self._undo = []

    def set(self, obj, name, value):
        old = getattr(obj, name)
        self._undo.append((obj, name, old))
        setattr(obj, name, value)

    def undo(self):
        while self._undo:
            obj, name, old = self._undo.pop()
            setattr(obj, name, old)


class Clock:
    """Simulated time.  Each reading moves it according to a mode."""

    MODES = ("steady", "frozen", "jumpy", "backwards", "huge", "fine")

    def __init__(self, mode="steady", seed=0):
        self.mode = mode
        self.t = 1.0e9
        self.reads = 0
        self.span = 0.0
        self.rng = random.Random(f"clock/{mode}/{seed}")

    def read(self):
        self.reads += 1
        m = self.mode
        if m == "steady":
            d = 0.01
        elif m == "frozen":
            d = 0.0
        elif m == "fine":
            d = 1e-9
        elif m == "jumpy":
            d = self.rng.choice([0.0, 0.0, 0.001, 1.0, 3600.0, 86400.0 * 400])
        elif m == "backwards":
            d = self.rng.choice([0.01, -0.5, -3600.0, 2.0, 0.0])
        else:
            d = self.rng.choice([1e15, 0.0, 1e12])
        self.t += d
        self.span += abs(d)
        return self.t


def install_clock(p, clock):
    """Every clock function of the time module, also where the package holds
    it under a name of its own."""
    wrapped = {}
    for n, real in _REAL.items():
        wrapped[real] = lambda *a, _c=clock: _c.read()
        p.set(time, n, wrapped[real])
    for name, mod in list(sys.modules.items()):
        if name == PKG or name.startswith(PKG + "."):
            for attr, val in list(vars(mod).items()):
                try:
                    hit = val in wrapped
                except TypeError:
                    continue
                if hit:
                    p.set(mod, attr, wrapped[val])


class Out:
    """Standard output as the library sees it."""

    def __init__(self, on_write=None, isatty=False):
        self.n = 0
        self.chars = 0
        self.on_write = on_write
        self._isatty = isatty
        self.closed = False
        self.encoding = "utf-8"
        self.errors = "strict"

    def write(self, s):
        self.n += 1
        self.chars += len(s)
        if self.on_write is not None:
            self.on_write(self.n, s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return self._isatty

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class Scratch:
    """A directory of this run's own, removed afterwards."""

    def __init__(self):
        base = os.environ.get("PMM_SIM_TMP") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="pmm-sim-", dir=base)

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class FaultFile:
    """A binary file whose writes can fail, tear or stop for good."""

    def __init__(self, fs, f, path):
        self._fs, self._f, self.name = fs, f, path
        self.mode = getattr(f, "mode", "rb")

    def write(self, data):
        fs = self._fs
        fs.writes += 1
        plan = fs.plan
        if fs.dead:
            raise SimCrash()
        if plan is not None and fs.writes > plan["at"]:
            kind = plan["kind"]
            cut = min(len(bytes(data)), plan.get("cut", 0))
            if kind in ("enospc", "eio"):
                if not plan.get("once") or not fs.fired:
                    if cut and not fs.fired:
                        self._f.write(bytes(data)[:cut])
                    fs.fired += 1
                    raise OSError(
                        errno.ENOSPC if kind == "enospc" else errno.EIO,
                        "simulated",
                    )
            elif kind == "crash":
                if cut:
                    self._f.write(bytes(data)[:cut])
                self._f.flush()
                fs.fired += 1
                fs.dead = True
                raise SimCrash()
        return self._f.write(data)

    def read(self, *a):
        fs = self._fs
        fs.reads += 1
        plan = fs.plan
        if plan is not None and plan["kind"] == "read-eio" and fs.reads > plan["at"]:
            fs.fired += 1
            raise OSError(errno.EIO, "simulated")
        return self._f.read(*a)

    def readinto(self, b):
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def close(self):
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self._f, n)


class FaultFS:
    """Files under one scratch directory, with planned faults."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.plan = None
        self.reset()

    def reset(self, plan=None):
        self.plan = plan
        self.writes = self.reads = self.fired = 0
        self.dead = False

    def owns(self, file):
        try:
            return os.path.realpath(os.fspath(file)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def open(self, file, mode="r", *a, **k):
        if not isinstance(file, int) and self.owns(file) and "b" in mode:
            plan = self.plan
            if plan is not None and plan["kind"] == "open-fails":
                self.fired += 1
                raise OSError(plan.get("errno", errno.EACCES), "simulated", str(file))
            return FaultFile(self, _REAL_OPEN(file, mode, *a, **k), str(file))
        return _REAL_OPEN(file, mode, *a, **k)

    def install(self, p):
        p.set(builtins, "open", self.open)
        p.set(io, "open", self.open)


def perturb_ambient(k):
    """Global random state that the library must not depend on."""
    random.seed(f"ambient/{k}")
    np.random.seed(k % (2**32))


def install_uuid(p, seed):
    r = random.Random(f"uuid/{seed}")
    p.set(uuid, "uuid4", lambda: uuid.UUID(int=r.getrandbits(128), version=4))


def default_signals():
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)


class Env:
    """All seams of one run."""

    def __init__(self, ctx, clock="steady", seed=0):
        self.ctx = ctx
        self.p = Patches()
        self.clock = Clock(clock, seed)
        self.scratch = None
        self.fs = None
        self.seed = seed
        self.out = Out()

    def __enter__(self):
        default_signals()
        perturb_ambient(self.seed)
        install_clock(self.p, self.clock)
        install_uuid(self.p, self.seed)
        self.p.set(sys, "stdout", self.out)
        # the progress bar shown last belongs to an earlier run
        bar = getattr(sys.modules.get(PKG + ".progressbar"), "ProgressBar", None)
        if hasattr(bar, "Instance"):
            bar.Instance = None
        return self

    def files(self):
        if self.fs is None:
            self.scratch = Scratch()
            self.fs = FaultFS(self.scratch.dir)
            self.fs.install(self.p)
        return self.fs

    def __exit__(self, *a):
        self.p.undo()
        default_signals()
        if self.scratch is not None:
            self.scratch.remove()
        self.ctx.count("simulated_seconds", min(self.clock.span, 1e12))
        self.ctx.count("clock_reads", self.clock.reads)
        return False
