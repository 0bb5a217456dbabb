"""What is saved is what comes back."""
import numpy as np
import jax

import parametricmatrixmodels as pmm
from sim import cmp, files, objects, seams, world, zoo
from sim.setup import Setup


def run(ctx):
    what = ctx.cycle([("zoo", 8), ("model", 5), ("scaler", 4), ("conformal", 3)], "object")
    ctx.cover("object", what)
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        fs = env.files()
        {"zoo": zoo_run, "model": model_run, "scaler": scaler_run, "conformal": conformal_run}[what](ctx, fs)


def edits(ctx, m):
    """Small changes of a model between generations."""
    for _ in range(ctx.draw(4, "edits")):
        e = ctx.pick(("freeze", "rename", "rng", "params", "unfreeze", "predict only"), "edit")
        mods = world.param_modules(m)
        if e in ("freeze", "unfreeze") and mods:
            x = mods[ctx.draw(len(mods), "module")]
            x.freeze() if e == "freeze" else x.unfreeze()
        elif e == "rename":
            ms = [x for x in world.walk(m) if isinstance(x, pmm.Model)]
            ms[ctx.draw(len(ms), "which")].name = ctx.pick(("A model", "net/1", "\u03bb model", ""), "new name")
        elif e == "rng":
            m.set_rng(world.gen_key(ctx, 500, "seed"))
        elif e == "params" and mods:
            x = mods[ctx.draw(len(mods), "module")]
            x.set_params(jax.tree.map(lambda a: (a * 0.75).astype(a.dtype), x.get_params()))
        ctx.cover("edit", e)
        ctx.count("operations")


def spec_of(specs, ctx, nested=True):
    """A model around a few modules."""
    kind = ctx.pick(("list", "tuple", "dict"), "container")
    name = ctx.pick((None, "named"), "model name")
    s = ["seq", kind, specs, name]
    if ctx.chance(1, 3, "nested"):
        s = ["seq", ctx.pick(("list", "tuple", "dict"), "container"), [["comment", "c"], s][: 2] if ctx.chance(1, 2, "comment") else [s]]
    return s


def other_model():
    m = pmm.SequentialModel([pmm.modules.LinearNN(out_features=2)], rng=3)
    m.compile(1, (2,))
    return m


def back(ctx, t, cls):
    """Load a model by one of the two ways."""
    if ctx.chance(1, 3, "load into"):
        m = other_model() if cls is pmm.SequentialModel and ctx.chance(1, 2, "into used") else cls()
        t.load(m.load)
        return m
    return t.load(cls.from_file)


def zoo_run(ctx, fs):
    specs, shape = zoo.gen(ctx)
    s = specs[0] if specs[0][0] == "nonseq" and ctx.chance(1, 2, "by itself") else spec_of(specs, ctx)
    m = world.build(s, rng=world.gen_key(ctx, 100, "rng"))
    X = zoo.data(shape, 3, ctx.draw(100, "data"))
    seed = ctx.draw(100, "seed")
    ctx.ev("zoo", s)
    if ctx.chance(1, 4, "before compiling"):
        early(ctx, fs, m, X, shape, seed)
    m.compile(seed, shape)
    if ctx.chance(1, 4, "module alone"):
        single(ctx, m, X)
    m = generations(ctx, fs, m, X, lambda o: type(m))
    if ctx.chance(1, 4, "compile again"):
        m.compile(ctx.draw(100, "seed"), shape)
        ctx.check(m.is_ready(), "differs", "the loaded model cannot be compiled again")


def early(ctx, fs, m, X, shape, seed):
    """Saving a model that is not compiled yet is refused, or what comes back
    gives, once compiled, what the model itself gives."""
    if ctx.chance(1, 2, "freeze early") and not any(isinstance(y, WITHOUT) for y in world.walk(m)):
        m.freeze()
    t = files.Target(ctx, fs.root)
    try:
        t.save(m)
        new = back(ctx, t, type(m))
    except Exception as e:
        ctx.ev("refused", type(e).__name__)
        ctx.cover("early", "refused")
        return
    m.compile(seed, shape)
    new.compile(seed, shape)
    d = world.obs_diff(world.observe(m, X), world.observe(new, X))
    ctx.check(d is None, "early-differs", lambda: f"saved before it was compiled: {d}")
    ctx.cover("early", "same")
    ctx.count("checks")


# to these, not being trainable before compiling means having no parameters
WITHOUT = (pmm.modules.MatMul, pmm.modules.Einsum, pmm.modules.Constant)


def single(ctx, m, X):
    """A module by itself: serialize and deserialize."""
    for x in world.walk(m):
        if isinstance(x, pmm.Model):
            continue
        y = type(x)()
        y.deserialize(x.serialize())
        a = [cmp.freeze(x.get_params()), cmp.freeze(x.get_state()), x.name, x.trainable, x.is_ready()]
        b = [cmp.freeze(y.get_params()), cmp.freeze(y.get_state()), y.name, y.trainable, y.is_ready()]
        d = cmp.diff(a[:2], b[:2])
        ctx.check(d is None and a[2:] == b[2:], "module-differs", lambda: f"{type(x).__name__}: {d} {a[2:]} {b[2:]}")
        ctx.count("checks")


def generations(ctx, fs, m, X, cls):
    n = ctx.weighted([(1, 3), (2, 2), (3, 1)], "generations")
    for g in range(n):
        edits(ctx, m)
        before = world.observe(m, X)
        t = files.Target(ctx, fs.root)
        t.save(m)
        mid = world.observe(m, X)
        d = world.obs_diff(before, mid)
        ctx.check(d is None, "save-changed-it", lambda: f"saving changed the model: {d}")
        if ctx.chance(1, 4, "lost"):
            ctx.fault("process-restart")
            jax.clear_caches()
        new = back(ctx, t, cls(m))
        after = world.observe(new, X)
        d = world.obs_diff(before, after)
        ctx.ev("generation", g, d)
        ctx.check(d is None, "differs", lambda: f"generation {g + 1}: {d}")
        ctx.count("checks")
        m = new
    return m


def model_run(ctx, fs):
    s = Setup(ctx, opts={"complex": ctx.chance(1, 3, "complex"), "depth": 2, "pmm": ctx.chance(1, 3, "pmm")},
              full_batch=ctx.chance(1, 2, "full"), max_n=4)
    m = s.model()
    data = s.data()
    X = data["X_val"]
    trained = ctx.chance(1, 2, "trained")
    table = [2.0, 1.5, 1.25, 1.75, 1.0, 0.5, 0.25]
    ctx.ev("model", s.spec, trained)
    if trained:
        E = ctx.between(1, 3, "epochs")
        s.train(m, world.Recorder(), table, data=data, epochs=E)
        ctx.count("epochs", E)
        ctx.cover("trained")
    elif ctx.chance(1, 3, "update"):
        m(X, update_state=True)
    last = m
    m = generations(ctx, fs, m, X, lambda o: pmm.SequentialModel)
    if trained and any(x.trainable for x in world.param_modules(m)):
        # the optimizer memory came along: both continue alike.  `last` is
        # the model that never was in a file; bring it to the same contents.
        twin = last
        sync(twin, m)
        E = ctx.between(1, 2, "more epochs")
        out = []
        for x in (twin, m):
            s.train(x, world.Recorder(), table, data=data, epochs=E, resume=True, batch_rng=5)
            out.append(world.observe(x, X))
        ctx.count("epochs", 2 * E)
        d = world.obs_diff(out[0], out[1], rtol=1e-6)
        ctx.check(d is None, "resume-differs", lambda: f"after resuming, {d}")
        ctx.cover("resumed")


def sync(a, b):
    """Give a the frozen flags, name and key that edits gave to b."""
    for x, y in zip(world.walk(a), world.walk(b)):
        if isinstance(x, pmm.Model):
            x.name = y.name
        elif x.trainable != y.trainable:
            x.trainable = y.trainable
    a.set_params(b.get_params())
    a.set_state(b.get_state())
    a.set_rng(b.get_rng())


def scaler_run(ctx, fs):
    for _ in range(ctx.between(1, 4, "scalers")):
        one_scaler(ctx, fs)


def one_scaler(ctx, fs):
    spec, kind = objects.gen_scaler(ctx)
    seed = ctx.draw(200, "data")
    sc = objects.make_scaler(spec)
    X = objects.scaler_data(spec, kind, ctx.between(3, 8, "rows"), seed)
    sc.fit(X)
    ctx.ev("scaler", spec, kind, seed)
    for g in range(ctx.between(1, 3, "generations")):
        before = objects.observe_scaler(sc, X)
        t = files.Target(ctx, fs.root)
        t.save(sc)
        d = objects.sdiff(before, objects.observe_scaler(sc, X))
        ctx.check(d is None, "save-changed-it", lambda: f"saving changed the scaler: {d}")
        sc2 = t.load(type(sc).load)
        d = objects.sdiff(before, objects.observe_scaler(sc2, X))
        ctx.check(d is None, "scaler-differs", lambda: f"{spec} {kind} generation {g + 1}: {d}")
        if ctx.chance(1, 2, "fit both"):
            # and it learns what the saved one learns
            X = objects.scaler_data(spec, kind, ctx.between(3, 8, "rows"), ctx.draw(200, "data"))
            sc.fit(X)
            sc2.fit(X)
            d = objects.sdiff(objects.observe_scaler(sc, X), objects.observe_scaler(sc2, X))
            ctx.check(d is None, "scaler-fits-differently", lambda: f"{spec} {kind} generation {g + 1}: {d}")
            ctx.cover("fitted both", spec[0])
        ctx.count("checks")
        sc = sc2


def conformal_run(ctx, fs):
    cf = objects.Conf(ctx)
    cm = cf.new()
    cal = not ctx.chance(1, 8, "uncalibrated")
    if cal:
        o = cf.gen_calibration()
        ctx.ev("conformal", cf.spec, o)
        if not objects.try_calibrate(cf, cm, o):
            ctx.cover("refused")
            return
    for g in range(ctx.between(1, 3, "generations")):
        if ctx.chance(1, 4, "rename"):
            cm.name = ctx.pick(("x", "renamed \u03bb"), "name")
        before = cf.observe(cm, calibrated=cal)
        t = files.Target(ctx, fs.root)
        t.save(cm)
        d = objects.cdiff(before, cf.observe(cm, calibrated=cal))
        ctx.check(d is None, "save-changed-it", lambda: f"saving changed the conformalized model: {d}")
        cm2 = t.load(objects.CM.from_file)
        d = objects.cdiff(before, cf.observe(cm2, calibrated=cal))
        ctx.check(d is None, "conformal-differs", lambda: f"generation {g + 1}: {d}")
        if ctx.chance(1, 3, "calibrate both"):
            o = cf.gen_calibration()
            if objects.try_calibrate(cf, cm, o):
                cf.calibrate(cm2, o)
                cal = True
                d = objects.cdiff(cf.observe(cm), cf.observe(cm2), rtol=1e-5)
                ctx.check(d is None, "conformal-calibrates-differently", lambda: f"generation {g + 1}, {o}: {d}")
                ctx.cover("calibrated both")
        ctx.count("checks")
        cm = cm2
