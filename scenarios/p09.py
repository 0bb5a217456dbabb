"""A damaged file never loads as a different model."""
import contextlib
import resource

import numpy as np
import jax

import parametricmatrixmodels as pmm
from sim import cmp, files, objects, seams, world, zoo
from sim.core import digest
from sim.setup import Setup


def run(ctx):
    what = ctx.cycle([("zoo", 4), ("model", 4), ("scaler", 3), ("conformal", 2)], "object")
    ctx.cover("object", what)
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        body(ctx, env, make(ctx, what), what)


def finger(x):
    """A digest of plain data with arrays in it."""
    if isinstance(x, dict):
        return digest("d", *[(str(k), finger(x[k])) for k in sorted(x, key=str)])
    if isinstance(x, (list, tuple)):
        return digest(type(x).__name__, *[finger(v) for v in x])
    if isinstance(x, (np.ndarray, np.generic, jax.Array)):
        a = cmp.arr(x)
        if a.dtype == object:
            return digest("o", a.shape, finger(a.tolist()))
        return digest("a", str(a.dtype), a.shape, a.tobytes())
    if callable(x):
        return digest("f", getattr(x, "__qualname__", ""))
    return digest("v", type(x).__name__, str(x))


class Thing:
    """Something that can be saved, and how to look at it."""

    def __init__(self, obj, load, probe):
        self.obj, self._load, self.probe = obj, load, probe

    def look(self, o):
        if isinstance(o, pmm.Model):
            more = [[world.describe(o)], [m.get_hyperparameters() for m in world.walk(o) if not isinstance(m, pmm.Model)],
                    o.get_params(), o.get_state(), o.get_rng()]
        else:
            more = [type(o).__name__, getattr(o, "name", None)]
        return finger([o.serialize(), more])


def make(ctx, what):
    if what == "zoo":
        specs, shape = zoo.gen(ctx)
        m = world.build(["seq", ctx.pick(("list", "tuple", "dict"), "container"), specs], rng=ctx.draw(100, "rng"))
        m.compile(ctx.draw(100, "seed"), shape)
        X = zoo.data(shape, 3, 1)
        ctx.ev("zoo", specs)
        return Thing(m, pmm.SequentialModel.from_file, lambda o: o(X))
    if what == "model":
        s = Setup(ctx, opts={"complex": True, "depth": 2}, full_batch=True, max_n=3)
        m = s.model()
        data = s.data()
        ctx.ev("model", s.spec)
        if ctx.chance(1, 3, "trained"):
            s.train(m, world.Recorder(), [2.0, 1.5, 1.25], data=data, epochs=1)
        return Thing(m, pmm.SequentialModel.from_file, lambda o: o(data["X_val"]))
    if what == "scaler":
        spec, kind = objects.gen_scaler(ctx)
        sc = objects.make_scaler(spec)
        X = objects.scaler_data(spec, kind, ctx.between(3, 8, "rows"), ctx.draw(100, "data"))
        sc.fit(X)
        ctx.ev("scaler", spec, kind)
        return Thing(sc, type(sc).load, lambda o: o.transform(X))
    cf = objects.Conf(ctx)
    cm = cf.new()
    o = cf.gen_calibration()
    ctx.ev("conformal", cf.spec, o)
    objects.try_calibrate(cf, cm, o)
    return Thing(cm, objects.CM.from_file, lambda c: c.model(cf.x(3, 5)))


@contextlib.contextmanager
def bounded():
    """Damaged lengths may ask for absurd amounts of memory; let them fail."""
    old = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (now + (3 << 30), old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)


KINDS = (("cut", 4), ("flip", 6), ("set", 3), ("zero", 2), ("tail", 2), ("lost", 1), ("crash", 4), ("full", 2), ("error", 2))


def damage(ctx, raw, kind):
    n = len(raw)
    at = ctx.draw(n, "at")
    if ctx.chance(1, 4, "near the end"):
        at = max(0, n - 1 - at % 600)
    if kind == "cut":
        return raw[:at], (kind, at)
    if kind == "flip":
        b = 1 << ctx.draw(8, "bit")
        return raw[:at] + bytes([raw[at] ^ b]) + raw[at + 1:], (kind, at, b)
    if kind == "set":
        v = ctx.pick((0, 255, ord("."), 1 + raw[at] & 255), "value")
        return raw[:at] + bytes([v]) + raw[at + 1:], (kind, at, v)
    ln = 1 + ctx.draw(512, "length")
    if kind == "zero":
        return raw[:at] + bytes(len(raw[at:at + ln])) + raw[at + ln:], (kind, at, ln)
    if kind == "tail":  # nothing after this point reached the disk
        return raw[:at] + bytes(n - at), (kind, at)
    return raw[:at] + raw[at + ln:], (kind, at, ln)


def body(ctx, env, th, what):
    fs = env.files()
    t = files.Target(ctx, fs.root)
    t.form = ctx.pick(("str", "path"), "form") if t.form == "memory" else t.form
    t.stale = False
    if ctx.chance(1, 3, "older version"):
        # an older save lies there already
        prev = older(ctx, th, what)
    else:
        prev = None
    if prev is not None:
        t.save(prev)
    fs.reset()
    t.save(th.obj)
    writes = max(1, fs.writes)
    good = t.bytes()
    ref = th.look(t.load(th._load))
    refp = cmp.freeze(th.probe(t.load(th._load)))
    allowed = {ref}
    if prev is not None:
        allowed.add(th.look(prev))
    loads = 0
    for i in range(ctx.between(10, 60, "damages")):
        kind = ctx.weighted(KINDS, "damage")
        if kind in ("crash", "full", "error"):
            with open(t.disk(), "wb") as f:
                f.write(good)
            if prev is not None:
                t.save(prev)
            where = ctx.draw(writes, "write")
            if ctx.chance(1, 3, "late"):
                where = max(0, writes - 1 - where % 12)
            fs.reset({"kind": {"crash": "crash", "full": "enospc", "error": "eio"}[kind], "at": where,
                      "cut": ctx.pick((0, 1, 7, 300), "torn"), "once": kind == "error"})
            done = False
            try:
                t.save(th.obj)
                done = True
            except (seams.SimCrash, OSError):
                pass
            except Exception:
                if not fs.fired:
                    raise
            fired, fs_plan = fs.fired, fs.plan
            fs.reset()
            desc = (kind, fs_plan["at"], fs_plan["cut"], fired)
            if fired:
                ctx.fault("save-" + kind, desc)
            elif done:
                ctx.count("unreached")
        else:
            bad, desc = damage(ctx, good, kind)
            if bad == good:
                continue
            with open(t.disk(), "wb") as f:
                f.write(bad)
            ctx.fault(kind, *desc)
        try:
            with bounded():
                o = t.load(th._load)
        except (Exception, MemoryError):
            ctx.count("rejected")
            continue
        loads += 1
        ctx.count("accepted")
        try:
            got = th.look(o)
        except Exception as e:
            ctx.fail("damaged-loaded", f"{desc} of {len(good)} bytes loaded as something unusable: {type(e).__name__}: {e}")
        ctx.check(got in allowed, "damaged-loaded", lambda: f"{desc} of {len(good)} bytes ({what}) loaded as a different object")
        if loads <= 2 and got == ref:
            d = cmp.diff(cmp.freeze(th.probe(o)), refp)
            ctx.check(d is None, "damaged-predicts", lambda: f"{desc}: {d}")
    ctx.count("checks")


def older(ctx, th, what):
    """A similar object saved earlier to the same place."""
    o = th.obj
    if isinstance(o, pmm.Model):
        p = o.copy()
        p.set_params(jax.tree.map(lambda a: (a * 0.5).astype(a.dtype), p.get_params()))
        p.set_rng(999)
        return p
    return None
