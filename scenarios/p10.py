"""A failed operation leaves things as they were."""
import errno
import os
import signal

import numpy as np
import jax

import parametricmatrixmodels as pmm
from sim import cmp, files, inject, objects, seams, simmods, threads, world
from sim.setup import Setup, Ticks


def run(ctx):
    what = ctx.cycle([("train", 9), ("load", 4), ("save", 3), ("calibrate", 4)], "operation")
    ctx.cover("operation", what)
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        {"train": train_run, "load": load_run, "save": save_run, "calibrate": calibrate_run}[what](ctx, env)


def boom(ctx):
    k = ctx.pick(("error", "memory", "interrupt", "os"), "exception")
    return {"error": simmods.InjectedError("simulated"), "memory": MemoryError("simulated"),
            "interrupt": KeyboardInterrupt("simulated"), "os": OSError(errno.EIO, "simulated")}[k]


class Guard:
    """Handlers, output and trace function must be as before."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.h = [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)]

    def check(self):
        now = [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)]
        self.ctx.check(now == self.h, "handlers-changed", lambda: f"signal handlers {now}, before {self.h}")

    def renew(self):
        for x, h in zip((signal.SIGINT, signal.SIGTERM), self.h):
            signal.signal(x, h)


def attempt(fn):
    """The exception fn ended with, or None."""
    try:
        fn()
        return None
    except BaseException as e:  # noqa: whatever reaches the caller
        return e


# ------------------------------------------------------------------- train
def with_faulty_module(ctx, head):
    """Choices of models that contain modules with fault points."""
    def make(s, heads):
        mid = world.gen_flat(ctx, {})
        body, _ = world.gen_layer(ctx, s.w, s.k, {"pmm": False, "complex": ctx.chance(1, 4, "complex")})
        return ["seq", ctx.pick(("list", "tuple", "dict"), "container"),
                heads + [["scale"]] + body + mid + [["scale"], ["echo", {"tag": 0}]]]

    return make


POINTS = ("echo.trace", "echo.get_callable", "echo.set_params", "echo.set_state", "scale.set_params", "echo.get_state")


def train_run(ctx, env):
    s = Setup(ctx, spec=with_faulty_module(ctx, None), max_n=5, echo_noise=False)
    s.fwd = False
    m, twin = s.model(), s.model()
    data = s.data()
    resume = trained = False
    if ctx.chance(3, 5, "trained before"):
        trained = True
        t0 = [2.0, 1.5, 1.25]
        for x in (m, twin):
            s.train(x, world.Recorder(), t0, data=data, epochs=1)
        resume = ctx.chance(2, 3, "resume")
    E = ctx.between(1, 3, "epochs")
    table = [2.0 - i / 64.0 for i in range(E + 2)]
    verbose = ctx.chance(1, 2, "verbose")
    kw = dict(data=data, epochs=E, resume=resume, verbose=verbose)
    X = data["X_val"]
    before = world.observe(m, X)
    # the lines of the method called and of what is stored in objects
    seen = {}
    with threads.Lines(True, seen):
        s_done(s, twin, table, kw)
    seen = sorted(k for k, (d, after) in seen.items() if d <= 1)
    done = world.observe(twin, X)
    ctx.ev("train", s.spec, E, resume, verbose)
    guard = Guard(ctx)
    for i in range(ctx.between(1, 4, "failures")):
        kind = ctx.weighted([("point", 6), ("runtime", 3), ("output", 3 if verbose else 0), ("signals", 1 if verbose else 0),
                             ("line", 6), ("loss", 1), ("callback", 1), ("data", 1)], "failure")
        rec = world.Recorder()
        fired = []
        undo = []
        over = {}
        exc = boom(ctx)
        strict, placed = True, False
        if kind == "point":
            pt = ctx.pick(POINTS, "point")
            simmods.FIRED.clear()
            skip = ctx.draw({"scale.set_params": 2, "echo.trace": 3, "echo.get_state": 2}.get(pt, 1), "skip")
            simmods.FAULTS[pt] = [skip, exc]
            desc = (pt, skip)
        elif kind in ("runtime", "output", "signals"):
            at = [ctx.between(1, (3 + 2 * s.spe) * E, "when")]
            if kind == "signals":
                at = at * 2

            def strike(where, number, kind=kind, exc=exc, fired=fired):
                if kind == "runtime" and where == "write":
                    return
                fired.append(where)
                if kind == "signals":
                    signal.raise_signal(signal.SIGINT)
                    return
                raise exc

            if kind == "output":
                k = at[0] if ctx.chance(2, 3, "while training") else ctx.between(1, 3, "early")

                def bad(n, text, k=k, fired=fired, exc=exc, out=env.out, n0=env.out.n):
                    if n - n0 >= k:
                        fired.append("write")
                        raise exc

                env.out.on_write = bad
            else:
                ticks = Ticks(rec, env.out, at, strike)
                if kind == "runtime":
                    env.out.on_write = None
            desc = (kind, at)
        elif kind == "loss":
            n = ctx.draw(3, "skip")

            def loss(*a, n=[n], fired=fired, exc=exc):
                if n[0] == 0:
                    fired.append("loss")
                    raise exc
                n[0] -= 1
                import jax.numpy as jnp
                return jnp.mean(jax.tree.leaves(a[-1])[0] ** 2)

            over[ctx.pick(("loss_fn", "val_loss_fn"), "which loss")] = loss
            desc = "loss"
        elif kind == "callback":
            def cb(rng, epoch, params, fired=fired, exc=exc):
                fired.append("callback")
                raise exc

            over["callback"] = cb
            desc = "callback"
        elif kind == "data":
            if not s.has_y:
                continue
            bad = dict(data)
            key = ctx.pick(("X", "X_val"), "bad data")
            bad[key] = jax.tree.map(lambda a: a[:, :0], bad[key])
            over["data"] = bad
            desc = ("data", key)
        else:
            strict = False
            far = ctx.pick((40, 300, 700, 0, 0, 0, 0), "far")
            if far:
                lines = inject.Lines(ctx.between(1, far, "line"), exc)
            else:
                # the later lines more often
                at = max(ctx.draw(len(seen), "place"), ctx.draw(len(seen), "or later"))
                lines = inject.Lines(place=seen[at], exc=exc)
            placed = not far
            desc = "line"
        if trained and kind != "line" and ctx.chance(1, 2, "other way"):
            # the training that fails is not of the kind that follows
            over["resume"] = not resume
        allkw = dict(kw)
        allkw.update(over)
        ctx.ev("failure", i, kind, desc, type(exc).__name__)
        if kind == "line":
            with lines:
                err = attempt(lambda: s.train(m, rec, table, **allkw))
            if lines.where:
                fired.append(lines.where.rsplit(":", 1)[0])
                desc = ("line", lines.where)
        else:
            err = attempt(lambda: s.train(m, rec, table, **allkw))
        if kind == "point":
            fired += list(simmods.FIRED)
            simmods.FAULTS.clear()
        env.out.on_write = None
        rec.hook = None
        world_quiet()
        if kind == "data":
            fired = ["data"] if err is not None else []
        if kind == "signals" and len(fired) < 2:
            fired = []
        ctx.cover("train", kind, bool(fired), err is not None)
        if not fired:
            if err is not None and kind not in ("loss",):
                raise err
            if err is None:
                # nothing struck: this was an ordinary training run
                settle(ctx, m, before, done, X, kind, False, guard, completed=kind not in ("signals", "data") and not over)
                return
            ctx.fail("unexpected-error", f"{type(err).__name__}: {err}")
        ctx.fault("train-" + kind, str(desc))
        ctx.check(err is not None, "error-swallowed", lambda: f"{desc}: {type(exc).__name__} did not reach the caller")
        after = world.observe(m, X)
        d = world.obs_diff(before, after)
        if d is not None and not strict and world.obs_diff(done, after, rtol=1e-5) is None:
            ctx.cover("completed before failing")
            return
        ctx.check(d is None, "failed-training-changed-model", lambda: f"after {desc} ({type(exc).__name__}): {d}")
        if not placed:
            # (a failure while cleaning up may leave things undone)
            guard.check()
        else:
            guard.renew()
        ctx.count("checks")
    s.train(m, world.Recorder(), table, **kw)
    settle(ctx, m, before, done, X, "retry", True, guard)


def world_quiet():
    try:
        jax.effects_barrier()
    except BaseException:
        pass


def s_done(s, twin, table, kw):
    s.train(twin, world.Recorder(), table, **kw)
    return twin


def settle(ctx, m, before, done, X, what, retry, guard, completed=True):
    guard.check()
    if completed:
        d = world.obs_diff(done, world.observe(m, X), rtol=1e-5)
        ctx.check(d is None, "retry-differs" if retry else "result-differs", lambda: f"{what}: {d}")
        ctx.count("checks")


# -------------------------------------------------------------------- load
def spec_small(ctx):
    k = ctx.between(1, 2, "outputs")
    body, _ = world.gen_layer(ctx, 2, k, {"pmm": False, "complex": False})
    return ["seq", ctx.pick(("list", "tuple", "dict"), "container"), [["scale"]] + body + [["echo", {"tag": -1}]], ctx.pick((None, "nm"), "name")]


LOAD_POINTS = ("echo.set_hyperparameters", "echo.set_state", "echo.set_params", "scale.set_params")


def build(spec, seed):
    m = world.build(spec, rng=seed)
    m.compile(seed + 1, (2,))
    return m


def load_run(ctx, env):
    fs = env.files()
    src, dst = build(spec_small(ctx), ctx.draw(50, "seed")), None
    spec = spec_small(ctx)
    seed = ctx.draw(50, "seed")
    dst = build(spec, seed)
    X = world.make_x("array", 3, 2, 5)
    if ctx.chance(1, 2, "frozen"):
        world.param_modules(dst)[0].freeze()
    trained = ctx.chance(1, 3, "trained")
    if trained:
        train_small(dst, False)
    before = world.observe(dst, X)
    t = files.Target(ctx, fs.root)
    t.form = "str" if t.form == "memory" else t.form
    t.save(src)
    good = t.bytes()
    target = world.observe(src, X)
    guard = Guard(ctx)
    for i in range(ctx.between(1, 5, "failures")):
        kind = ctx.weighted([("point", 4), ("line", 6), ("damage", 4), ("read", 2), ("missing", 1), ("version", 1), ("foreign", 1)], "failure")
        exc = boom(ctx)
        strict, fired, desc = True, True, kind
        fn = lambda: t.load(dst.load)  # noqa: E731
        ctx.ev("failure", i, kind, type(exc).__name__)
        if kind == "point":
            pt = ctx.pick(LOAD_POINTS, "point")
            simmods.FIRED.clear()
            simmods.FAULTS[pt] = [ctx.draw(3, "skip"), exc]
            err = attempt(fn)
            fired = bool(simmods.FIRED)
            simmods.FAULTS.clear()
            desc = pt
        elif kind == "line":
            strict = False
            with inject.Lines(ctx.between(1, ctx.pick((60, 300), "far"), "line"), exc) as ln:
                err = attempt(fn)
            fired = ln.where is not None
            desc = ("line", ln.where)
        elif kind == "damage":
            n = len(good)
            at = ctx.draw(n, "at")
            cut = ctx.chance(1, 2, "cut")
            with open(t.disk(), "wb") as f:
                f.write(good[:at] if cut else good[:at] + bytes([good[at] ^ 0x41]) + good[at + 1:])
            err = attempt(fn)
            with open(t.disk(), "wb") as f:
                f.write(good)
            fired = err is not None
            desc = ("damage", at, cut)
        elif kind == "read":
            fs.reset({"kind": "read-eio", "at": ctx.draw(60, "read")})
            err = attempt(fn)
            fired = fs.fired > 0
            fs.reset()
        elif kind == "missing":
            err = attempt(lambda: dst.load(os.path.join(fs.root, "nothing here")))
        elif kind == "version":
            # a file of another package version, loaded strictly
            old = pmm.__version__
            try:
                pmm.__version__ = "99.0.0"
                err = attempt(lambda: t.load(lambda f: dst.load(f, strict_package_version=True)))
            finally:
                pmm.__version__ = old
        else:
            other = pmm.preprocessing.StandardScaler()
            other.fit(X)
            p = os.path.join(fs.root, "scaler.npz")
            other.save(p)
            err = attempt(lambda: dst.load(p))
        ctx.cover("load", kind, fired)
        if not fired:
            if err is not None:
                raise err
            break
        ctx.fault("load-" + kind, str(desc))
        ctx.check(err is not None, "error-swallowed", lambda: f"{desc}: the failure did not reach the caller")
        after = world.observe(dst, X)
        d = world.obs_diff(before, after)
        if d is not None and not strict and world.obs_diff(target, after) is None:
            break
        ctx.check(d is None, "failed-load-changed-model", lambda: f"after {desc} ({type(err).__name__}): {d}")
        guard.check()
        ctx.count("checks")
    else:
        if trained and ctx.chance(1, 2, "resume"):
            # the optimizer memory is still there
            twin = build(spec, seed)
            if not world.param_modules(dst)[0].trainable:
                world.param_modules(twin)[0].freeze()
            train_small(twin, False)
            train_small(twin, True)
            train_small(dst, True)
            d = world.obs_diff(world.observe(twin, X), world.observe(dst, X), rtol=1e-5)
            ctx.check(d is None, "failed-load-changed-model", lambda: f"resuming after failed loads: {d}")
            return
        t.load(dst.load)
    d = world.obs_diff(target, world.observe(dst, X))
    ctx.check(d is None, "retry-differs", lambda: f"loading again: {d}")


def train_small(m, resume):
    X = world.make_x("array", 4, 2, 5)
    Y = X[:, :1]
    import jax.numpy as jnp

    def loss(epoch, X, Y, pred):
        return jnp.mean(jnp.abs(pred[:, :1] - Y) ** 2) + jnp.mean(jnp.abs(pred[:, :-2]) ** 2)

    m.train(X, Y, X_val=X, Y_val=Y, loss_fn=loss, epochs=2, batch_rng=3, lr=0.05, resume=resume, verbose=False)


# -------------------------------------------------------------------- save
def save_run(ctx, env):
    fs = env.files()
    conf = None
    kind0 = ctx.weighted([("model", 4), ("scaler", 2), ("conformal", 1)], "object")
    if kind0 == "model":
        obj = build(spec_small(ctx), ctx.draw(50, "seed"))
        X = world.make_x("array", 3, 2, 5)
        look = lambda o: world.observe(o, X)  # noqa: E731
        diff, load = world.obs_diff, pmm.SequentialModel.from_file
    elif kind0 == "scaler":
        spec, kd = objects.gen_scaler(ctx)
        obj = objects.make_scaler(spec)
        X = objects.scaler_data(spec, kd, 5, ctx.draw(50, "data"))
        obj.fit(X)
        look = lambda o: objects.observe_scaler(o, X)  # noqa: E731
        diff, load = objects.sdiff, type(obj).load
    else:
        conf = objects.Conf(ctx)
        obj = conf.new()
        o = conf.gen_calibration()
        if not objects.try_calibrate(conf, obj, o):
            return
        look = lambda x: conf.observe(x)  # noqa: E731
        diff, load = objects.cdiff, objects.CM.from_file
    before = look(obj)
    ctx.cover("save", kind0)
    t = files.Target(ctx, fs.root)
    t.form = "str" if t.form == "memory" else t.form
    t.stale = False
    fs.reset()
    t.save(obj)
    total = max(1, fs.writes)
    guard = Guard(ctx)
    for i in range(ctx.between(1, 6, "failures")):
        kind = ctx.weighted([("full", 3), ("eio", 3), ("open", 2), ("line", 3), ("point", 2), ("nowhere", 1)], "failure")
        exc = boom(ctx)
        ctx.ev("failure", i, kind)
        fired = True
        if kind in ("full", "eio"):
            fs.reset({"kind": "enospc" if kind == "full" else "eio", "at": ctx.draw(total, "write"), "cut": ctx.pick((0, 1, 50), "torn"),
                      "once": kind == "eio"})
            err = attempt(lambda: t.save(obj))
            fired = fs.fired > 0
            fs.reset()
        elif kind == "open":
            if t.form == "file":
                continue
            fs.reset({"kind": "open-fails", "errno": ctx.pick((errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS), "errno")})
            err = attempt(lambda: t.save(obj))
            fired = fs.fired > 0
            fs.reset()
        elif kind == "line":
            with inject.Lines(ctx.between(1, ctx.pick((20, 150), "far"), "line"), exc) as ln:
                err = attempt(lambda: t.save(obj))
            fired = ln.where is not None
        elif kind == "point":
            simmods.FIRED.clear()
            simmods.FAULTS[ctx.pick(("echo.get_hyperparameters", "echo.get_state"), "point")] = [ctx.draw(2, "skip"), exc]
            err = attempt(lambda: t.save(obj))
            fired = bool(simmods.FIRED)
            simmods.FAULTS.clear()
        else:
            err = attempt(lambda: obj.save(os.path.join(fs.root, "no", "such", "dir", "x")))
        if not fired:
            if err is not None:
                raise err
            continue
        ctx.fault("save-" + kind)
        ctx.check(err is not None, "error-swallowed", lambda: f"saving: {kind} did not reach the caller")
        d = diff(before, look(obj))
        ctx.check(d is None, "failed-save-changed-it", lambda: f"after {kind}: {d}")
        guard.check()
        ctx.count("checks")
    t.save(obj)
    d = diff(before, look(t.load(load)))
    ctx.check(d is None, "retry-differs", lambda: f"saving again and loading: {d}")


# --------------------------------------------------------------- calibrate
def calibrate_run(ctx, env):
    cf = objects.Conf(ctx, faulty=True)
    cm = cf.new()
    o1, o2 = cf.gen_calibration(), cf.gen_calibration()
    first = ctx.chance(2, 3, "calibrated before")
    ctx.ev("calibrate", cf.spec, o1, o2, first)
    if first and not objects.try_calibrate(cf, cm, o1):
        return
    twin = cf.new()
    if not objects.try_calibrate(cf, twin, o2):
        return
    done = cf.observe(twin)
    before = cf.observe(cm, calibrated=first)
    guard = Guard(ctx)
    total = None
    for i in range(ctx.between(1, 5, "failures")):
        kind = ctx.weighted([("line", 6), ("point", 3), ("data", 2), ("output", 1)], "failure")
        exc = boom(ctx)
        strict, fired, desc = True, True, kind
        ctx.ev("failure", i, kind, type(exc).__name__)
        if kind == "line":
            strict = False
            if total is None:
                with inject.Lines() as ln:
                    cf.calibrate(cf.new(), o2)
                total = ln.n
            at = ctx.between(1, total, "line")
            if ctx.chance(1, 3, "late"):
                at = max(1, total - at % 150)
            with inject.Lines(at, exc) as ln:
                err = attempt(lambda: cf.calibrate(cm, o2))
            fired = ln.where is not None
            desc = ("line", ln.where)
        elif kind == "point":
            simmods.FIRED.clear()
            simmods.FAULTS[ctx.pick(("echo.trace", "echo.get_callable", "echo.get_state"), "point")] = [ctx.draw(3, "skip"), exc]
            err = attempt(lambda: cf.calibrate(cm, o2))
            fired = bool(simmods.FIRED)
            simmods.FAULTS.clear()
        elif kind == "data":
            X, Y, kw = cf.kwargs(o2)
            which = ctx.pick(("Y short", "X_train", "X"), "bad data")
            if which == "Y short":
                Y = Y[:-1]
            elif which == "X_train":
                if "X_train" not in kw:
                    continue
                kw["X_train"] = jax.tree.map(lambda a: a[:, :0], kw["X_train"])
            else:
                X = jax.tree.map(lambda a: a[:, :0], X)
            err = attempt(lambda: cm.calibrate(X, Y, **kw))
            fired = err is not None
            desc = which
            if err is None:
                return  # accepted after all: nothing to compare with
        else:
            fl = []

            def bad(n, text, fl=fl, exc=exc, k=ctx.draw(4, "when"), n0=env.out.n):
                if n - n0 > k:
                    fl.append(n)
                    raise exc

            env.out.on_write = bad
            err = attempt(lambda: cf.calibrate(cm, o2, verbose=True))
            env.out.on_write = None
            fired = bool(fl)
        ctx.cover("calibrate", kind, fired)
        world_quiet()
        if not fired:
            if err is not None:
                raise err
            break
        ctx.fault("calibrate-" + kind, str(desc))
        ctx.check(err is not None, "error-swallowed", lambda: f"{desc}: the failure did not reach the caller")
        d = objects.cdiff(before, cf.observe(cm, calibrated=first))
        if d is not None and not strict and objects.cdiff(done, cf.observe(cm)) is None:
            break
        ctx.check(d is None, "failed-calibration-changed-it", lambda: f"after {desc} ({type(err).__name__}): {d}")
        guard.check()
        ctx.count("checks")
    else:
        cf.calibrate(cm, o2)
    d = objects.cdiff(done, cf.observe(cm), rtol=1e-5)
    ctx.check(d is None, "retry-differs", lambda: f"calibrating again: {d}")
