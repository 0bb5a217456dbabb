"""Copies and snapshots stand alone."""
import numpy as np
import jax
import jax.numpy as jnp

import parametricmatrixmodels as pmm
from parametricmatrixmodels import modules as M
from sim import cmp, objects, seams, world, zoo
from sim.setup import Setup


def run(ctx):
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        if ctx.cycle([(False, 5), (True, 1)], "fitted objects"):
            w = Fitted(ctx)
            w.start()
            for i in range(ctx.between(3, 10, "operations")):
                w.step(i)
            return
        w = World(ctx, env)
        w.start()
        for i in range(ctx.between(3, 10, "operations")):
            w.step(i)
        w.look()


# ------------------------------------------------------------- descriptions
def rep(x):
    """Nested data as plain comparable values that share nothing with it."""
    if isinstance(x, M.BaseModule):
        return ["module"] + rep_object(x)
    if isinstance(x, dict):
        return ["dict"] + sorted(([repr(k), rep(v)] for k, v in x.items()), key=lambda kv: kv[0])
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [rep(v) for v in x]
    if isinstance(x, (np.ndarray, np.generic, jax.Array)):
        a = cmp.arr(x)
        if a.dtype == object:
            return ["array", "object", a.shape, rep(a.tolist())]
        return ["array", str(a.dtype), a.shape, np.ascontiguousarray(a).tobytes()]
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return [type(x).__name__, repr(x)]
    if isinstance(x, jax.tree_util.PyTreeDef):
        return ["tree", str(x)]
    return ["other", type(x).__name__]


def attempt(f):
    """What can be asked only of compiled models is an answer too."""
    try:
        return rep(f())
    except (RuntimeError, ValueError, TypeError, AttributeError) as e:
        return ["error", type(e).__name__]


def rep_object(o):
    out = [type(o).__name__, o.name, bool(o.trainable), bool(o.is_ready()), attempt(o.get_params), attempt(o.get_state), attempt(o.serialize)]
    if isinstance(o, pmm.Model):
        out += [world.describe(o), rep(o.get_rng())]
    else:
        out += [attempt(o.get_hyperparameters)]
    return out


def where(a, b, path="", depth=0):
    if type(a) is not type(b):
        return f"{path}: {short(a)} != {short(b)}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {short(a)} != {short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = where(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {short(a)} != {short(b)}"


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


def scramble(x):
    """Overwrite everything in nested data that can be overwritten in place;
    how many containers were hit."""
    n = 0
    if isinstance(x, dict):
        for v in list(x.values()):
            n += scramble(v)
        if x:
            k = next(iter(x))
            x[k] = "overwritten"
        x["added"] = "overwritten"
        n += 1
    elif isinstance(x, list):
        for v in x:
            n += scramble(v)
        x.append("overwritten")
        if len(x) > 1:
            x[0] = "overwritten"
        n += 1
    elif isinstance(x, tuple):
        for v in x:
            n += scramble(v)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype != object:
        x[...] = np.zeros((), x.dtype)
        n += 1
    return n


# ------------------------------------------------------------------ history
class Obj:
    """A model or module and what is known of it."""

    def __init__(self, name, o, x):
        self.name, self.o, self.x = name, o, x
        self.trains = 0  # trainings that can be resumed; negative: never again
        self.touch()

    def touch(self):
        self.rep = rep_object(self.o)
        self.pred = None

    def storable(self):
        # (some models cannot be written down before they are compiled)
        return self.rep[6][0] != "error"

    def predict(self):
        if self.x is None or not self.o.is_ready():
            return None
        return cmp.freeze(self.o(self.x(3, 17)))


class Snap:
    def __init__(self, name, kind, owner, data):
        self.name, self.kind, self.owner, self.data = name, kind, owner, data
        self.rep = rep(data)


class World:
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        self.fs = env.files()
        self.objs = []
        self.snaps = []
        self.n = 0
        self.setup = None
        self.trains = 0

    def start(self):
        ctx = self.ctx
        kind = ctx.cycle([("zoo", 4), ("model", 4), ("nonseq", 1), ("empty", 1)], "object")
        ctx.cover("object", kind)
        if kind == "zoo":
            specs, shape = zoo.gen(ctx)
            spec = ["seq", ctx.pick(("list", "tuple", "dict"), "container"), specs]
            x = lambda n, seed: zoo.data(shape, n, seed)  # noqa: E731
            m = world.build(spec, rng=ctx.draw(50, "rng"))
        elif kind == "model":
            s = self.setup = Setup(ctx, opts={"complex": ctx.chance(1, 5, "complex"), "depth": 1, "pmm": ctx.chance(1, 5, "pmm")}, max_n=4, echo_noise=False)
            x = lambda n, seed: world.make_x(s.xkind, n, s.w, seed)  # noqa: E731
            spec, shape = s.spec, world.shape_of(s.x(1, 0))
            m = world.build(spec, rng=s.mseed)
        elif kind == "nonseq":
            spec = ["nonseq", {"a": ["linear", 2], "b": ["scale"], "m": ["merge"]}, {"input": ["a", "b"], "a": "m.0", "b": "m.1", "m": "output"}]
            shape = (2,)
            x = lambda n, seed: zoo.data(shape, n, seed)  # noqa: E731
            m = world.build(spec, rng=ctx.draw(50, "rng"))
        else:
            spec = ["seq", ctx.pick(("list", "tuple", "dict"), "container"), []]
            shape = (2,)
            x = lambda n, seed: zoo.data(shape, n, seed)  # noqa: E731
            m = world.build(spec, rng=ctx.draw(50, "rng"))
        if kind != "empty":
            m.compile(ctx.draw(50, "seed"), shape)
        self.kind, self.shape = kind, shape
        ctx.ev("start", spec)
        self.add(m, x, "model")

    def add(self, o, x, name):
        self.n += 1
        b = Obj(f"{name}{self.n}", o, x)
        self.objs.append(b)
        return b

    # ---------------------------------------------------------------------
    def unchanged(self, what, but=()):
        """Nothing but the objects in `but` has changed."""
        for b in self.objs:
            if b in but:
                continue
            d = where(b.rep, rep_object(b.o))
            self.ctx.check(d is None, "bystander-changed", lambda: f"{what} changed {b.name}: {d}")
        for s in self.snaps:
            d = where(s.rep, rep(s.data))
            self.ctx.check(d is None, "snapshot-changed", lambda: f"{what} changed {s.name} ({s.kind} of {s.owner.name}): {d}")
        self.ctx.count("checks")

    def look(self):
        """Predictions are still the same where nothing happened."""
        for b in self.objs:
            p = b.predict()
            if p is None:
                continue
            if b.pred is not None:
                d = cmp.diff(b.pred, p)
                self.ctx.check(d is None, "prediction-changed", lambda: f"{b.name}: {d}")
            b.pred = p
        self.unchanged("predicting")

    def step(self, i):
        ctx = self.ctx
        op = ctx.weighted([("copy", 6), ("snapshot", 5), ("set params", 3), ("set state", 1), ("set rng", 1), ("freeze", 3), ("unfreeze", 1), ("rename", 1),
                           ("train", 3), ("edit", 3), ("recompile", 1), ("load", 2), ("overwrite", 4), ("restore", 4), ("look", 2), ("evaluate", 1),
                           ("copy module", 2), ("set options", 1), ("reset", 1)], "op")
        ctx.count("operations")
        ctx.cover("op", op)
        models = [b for b in self.objs if isinstance(b.o, pmm.Model)]
        b = models[ctx.draw(len(models), "which")]
        ctx.ev(i, op, b.name)
        f = getattr(self, "op_" + op.replace(" ", "_"))
        f(b)
        ctx.ev("objects", [cmp.digest(x.rep) for x in self.objs], len(self.snaps))

    def parts(self, b):
        """Modules inside an object."""
        return [m for m in world.walk(b.o) if m is not b.o]

    def op_copy(self, b):
        ctx = self.ctx
        if len(self.objs) >= 5:
            return self.op_look(b)
        if not b.storable():
            return
        want = b.rep
        p = b.predict() if ctx.chance(1, 2, "compare predictions") else None
        c = b.o.deepcopy() if ctx.chance(1, 3, "deepcopy") else b.o.copy()
        c = self.add(c, b.x, "copy")
        c.trains = b.trains
        self.unchanged("copying", but=[c])
        ctx.check(c.o is not b.o, "copy-is-original", "copy returned the model itself")
        d = where(want, c.rep)
        ctx.check(d is None, "copy-differs", lambda: f"copy of {b.name}: {d}")
        if p is not None:
            q = c.predict()
            d = cmp.diff(p, q)
            ctx.check(d is None, "copy-differs", lambda: f"prediction of a copy of {b.name}: {d}")
        if self.setup is not None and b.o.is_ready() and self.trains == 0 and ctx.chance(1, 4, "train both"):
            self.train_both(b, c)

    def op_copy_module(self, b):
        """A module of the model, copied alone."""
        ms = self.parts(b)
        if not ms or len(self.objs) >= 5:
            return
        m = ms[self.ctx.draw(len(ms), "module")]
        want = rep_object(m)
        if want[6][0] == "error":
            return
        c = self.add(m.copy(), None, "module")
        self.unchanged("copying a module", but=[c])
        d = where(want, c.rep)
        self.ctx.check(d is None, "copy-differs", lambda: f"copy of {type(m).__name__} of {b.name}: {d}")
        if self.ctx.chance(1, 2, "change it"):
            c.o.set_params(jax.tree.map(lambda a: (a * 0.5).astype(a.dtype), c.o.get_params()))
            c.o.freeze()
            c.touch()
            self.unchanged("changing a copied module")

    def can_train(self, b):
        return (self.setup is not None and b.x is not None and self.trains < 3 and b.o.is_ready() and b.trains >= 0
                and any(x.trainable for x in world.param_modules(b.o)))

    def train(self, b, resume):
        self.trains += 1
        s = self.setup
        s.train(b.o, world.Recorder(), [2.0 - i / 64.0 for i in range(4)], epochs=1, fwd=False, **({"resume": True} if resume else {}))
        b.trains += 1
        self.ctx.count("epochs", 1)

    def op_train(self, b):
        if not self.can_train(b):
            return
        self.train(b, b.trains > 0 and self.ctx.chance(1, 2, "resume"))
        b.touch()
        self.unchanged("training", but=[b])

    def train_both(self, b, c):
        """A copy learns what the original learns."""
        if not self.can_train(b):
            return
        resume = b.trains > 0
        for o in (b, c):
            self.train(o, resume)
            o.touch()
            self.unchanged("training", but=[o])
        d = where(b.rep, c.rep)
        self.ctx.check(d is None, "copy-trains-differently", lambda: f"{b.name} and its copy, trained alike: {d}")

    def op_snapshot(self, b):
        if len(self.snaps) >= 5:
            return
        b_or_m, own = self.source(b)
        kind = self.ctx.weighted([("params", 3), ("serialized", 3), ("state", 1)], "kind")
        try:
            data = {"params": b_or_m.get_params, "state": b_or_m.get_state, "serialized": b_or_m.serialize}[kind]()
        except (RuntimeError, ValueError, TypeError):
            return
        self.n += 1
        s = Snap(f"snapshot{self.n}", kind, b, data)
        s.whole = b_or_m is b.o
        s.obj_rep = rep_object(b_or_m)
        s.cls = type(b_or_m)
        self.snaps.append(s)
        self.unchanged("taking a snapshot")

    def source(self, b):
        ms = self.parts(b)
        if ms and self.ctx.chance(1, 3, "of a module"):
            return ms[self.ctx.draw(len(ms), "module")], False
        return b.o, True

    def op_overwrite(self, b):
        """Overwrite what was handed out."""
        m, _ = self.source(b)
        kind = self.ctx.weighted([("params", 3), ("serialized", 3), ("state", 1)], "kind")
        try:
            data = {"params": m.get_params, "state": m.get_state, "serialized": m.serialize}[kind]()
        except (RuntimeError, ValueError, TypeError):
            return
        n = scramble(data)
        self.ctx.count("containers overwritten", n)
        if n:
            self.ctx.cover("overwritten", kind, type(m).__name__)
        self.unchanged(f"overwriting {kind} handed out by {type(m).__name__}")

    def op_restore(self, b):
        """Use a snapshot on an object, maybe twice."""
        ctx = self.ctx
        if not self.snaps:
            return
        s = self.snaps[ctx.draw(len(self.snaps), "snapshot")]
        if s.kind == "serialized":
            if len(self.objs) >= 6:
                return
            o = s.cls()
            o.deserialize(s.data)
            c = self.add(o, s.owner.x if s.whole else None, "restored")
            self.unchanged("deserializing", but=[c])
            d = where(s.obj_rep, c.rep)
            ctx.check(d is None, "restored-differs", lambda: f"restored from {s.name}: {d}")
            c.trains = 0
            return
        if not s.whole:
            return
        try:
            cur = b.o.get_params() if s.kind == "params" else b.o.get_state()
        except RuntimeError:
            return
        if cmp.struct(cur) != cmp.struct(s.data) or [np.shape(a) for a in cmp.leaves(cur)] != [np.shape(a) for a in cmp.leaves(s.data)]:
            return
        (b.o.set_params if s.kind == "params" else b.o.set_state)(s.data)
        b.touch()
        d = cmp.diff(b.o.get_params() if s.kind == "params" else b.o.get_state(), s.data)
        ctx.check(d is None, "restored-differs", lambda: f"{s.kind} set back: {d}")
        self.unchanged("setting from a snapshot", but=[b])

    def op_set_params(self, b):
        f = self.ctx.pick((0.5, 1.25), "factor")
        mods = world.param_modules(b.o)
        if mods and self.ctx.chance(1, 2, "one module"):
            x = mods[self.ctx.draw(len(mods), "module")]
            x.set_params(jax.tree.map(lambda a: (a * f).astype(a.dtype), x.get_params()))
        elif b.o.is_ready():
            b.o.set_params(jax.tree.map(lambda a: (a * f).astype(a.dtype), b.o.get_params()))
        b.touch()
        self.unchanged("set_params", but=[b])

    def op_set_state(self, b):
        if b.o.is_ready():
            b.o.set_state(jax.tree.map(lambda a: a + 3, b.o.get_state()))
        b.touch()
        self.unchanged("set_state", but=[b])

    def op_set_rng(self, b):
        b.o.set_rng(world.gen_key(self.ctx, 100))
        b.touch()
        self.unchanged("set_rng", but=[b])

    def op_freeze(self, b, freeze=True):
        ms = self.parts(b)
        x = ms[self.ctx.draw(len(ms), "module")] if ms and self.ctx.chance(2, 3, "one") else b.o
        x.freeze() if freeze else x.unfreeze()
        b.touch()
        self.unchanged("freezing", but=[b])

    def op_unfreeze(self, b):
        self.op_freeze(b, False)

    def op_rename(self, b):
        ms = [x for x in world.walk(b.o) if isinstance(x, pmm.Model)]
        ms[self.ctx.draw(len(ms), "which")].name = f"name {self.n}"
        b.touch()
        self.unchanged("renaming", but=[b])

    def op_set_options(self, b):
        """Options of one module given to another of its kind."""
        ms = [m for m in self.parts(b) if not isinstance(m, pmm.Model)]
        if not ms:
            return
        m = ms[self.ctx.draw(len(ms), "module")]
        o = type(m)()
        o.set_hyperparameters(m.get_hyperparameters())
        self.unchanged("using a module's options for another")

    def op_edit(self, b):
        ctx = self.ctx
        mods = b.o.get_modules()
        if isinstance(b.o, pmm.NonSequentialModel) or not isinstance(mods, (list, tuple, dict)):
            return
        # modules that keep the shape go right before the last
        n = len(mods)
        i = max(0, n - 1)
        new = world.build_module(ctx.pick((["comment", "x"], ["scale"], ["bias"]) if self.kind != "zoo" else (["comment", "x"],), "new"))
        inner = [m for m in self.parts(b) if type(m) is pmm.SequentialModel]
        t = inner[ctx.draw(len(inner), "inner")] if inner and b.trains == 0 and ctx.chance(1, 3, "edit inside") else b.o
        how = ctx.pick(("insert", "pop", "insert"), "how")
        tm = t.get_modules()
        if how == "pop" and len(tm):
            t.pop_module_by_index(ctx.draw(len(tm), "at"))
            b.trains = -10
        elif isinstance(tm, dict):
            t.insert_module(max(0, len(tm) - 1), new, f"k{max(0, len(tm) - 2):02d}x{self.n}")
        else:
            t.insert_module(max(0, len(tm) - 1), new)
        self.n += 1
        b.touch()
        self.unchanged(f"{how} of a module", but=[b])
        if how == "insert" and t is b.o and self.kind != "empty" and b.trains >= 0 and b.x is not None:
            b.o.compile(ctx.draw(50, "seed"), self.shape)
            b.trains = 0
            b.touch()
            self.unchanged("compiling", but=[b])
        else:
            b.trains = -10

    def op_recompile(self, b):
        if b.x is None or not b.o.is_ready():
            return
        if b.trains > 0:
            b.o.reset()
            b.trains = 0
        b.o.compile(self.ctx.draw(50, "seed"), self.shape)
        b.touch()
        self.unchanged("compiling", but=[b])

    def op_reset(self, b):
        if not self.ctx.chance(1, 2, "really"):
            return
        b.o.reset()
        b.trains = -10
        b.touch()
        self.unchanged("reset", but=[b])

    def op_load(self, b):
        models = [o for o in self.objs if isinstance(o.o, pmm.Model) and type(o.o) is type(b.o) and o.o.is_ready()]
        if not models:
            return
        src = models[self.ctx.draw(len(models), "source")]
        self.n += 1
        p = self.fs.root + f"/m{self.n}.npz"
        src.o.save(p)
        self.unchanged("saving")
        b.o.load(p)
        b.trains, b.x = src.trains, src.x
        b.touch()
        d = where(src.rep, b.rep)
        self.ctx.check(d is None, "restored-differs", lambda: f"{b.name} loaded from {src.name}: {d}")
        self.unchanged("loading", but=[b])

    def op_look(self, b):
        self.look()

    def op_evaluate(self, b):
        if b.x is None or not b.o.is_ready():
            return
        x = b.x(3, 5)
        _, st = b.o(x, return_state=True, update_state=True)
        b.touch()
        self.unchanged("updating the state", but=[b])


# ------------------------------------------- scalers, conformalized models
class ConfKind:
    def __init__(self, ctx):
        self.ctx, self.cf = ctx, objects.Conf(ctx)

    def new(self):
        o = self.cf.new()
        self.cls = type(o)
        return o, self.fit(o)

    def fit(self, o):
        return objects.try_calibrate(self.cf, o, self.cf.gen_calibration())

    def use(self, o):
        o(self.cf.x(2, self.ctx.draw(50, "input")), alpha=self.ctx.pick((0.3, 0.6, 0.25), "alpha"))

    def observe(self, o):
        return self.cf.observe(o)

    def diff(self, a, b):
        return objects.cdiff(a, b)


class ScalerKind:
    def __init__(self, ctx):
        self.ctx = ctx
        self.spec, self.kind = objects.gen_scaler(ctx)
        # a value of each class, whatever is drawn
        self.probe = objects.scaler_data(self.spec, self.kind, 9, 3)

    def new(self):
        o = objects.make_scaler(self.spec)
        self.cls = type(o)
        return o, self.fit(o)

    def fit(self, o):
        o.fit(objects.scaler_data(self.spec, self.kind, 9, self.ctx.draw(50, "data")))
        return True

    def use(self, o):
        objects.observe_scaler(o, self.probe)

    def observe(self, o):
        return objects.observe_scaler(o, self.probe)

    def diff(self, a, b):
        return objects.sdiff(a, b)


class Fitted:
    """Serialized data of scalers and conformalized models, and the objects
    made of it, stand alone as well."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.k = (ConfKind if ctx.chance(1, 2, "conformalized") else ScalerKind)(ctx)
        self.objs, self.snaps = [], []  # [name, object, what it showed]; [data, its description, what its owner showed]

    def start(self):
        o, ok = self.k.new()
        self.ctx.cover("object", type(o).__name__)
        if ok:
            self.objs.append(["first", o, self.k.observe(o)])

    def unchanged(self, what, but=None):
        for b in self.objs:
            if b is but:
                b[2] = self.k.observe(b[1])
                continue
            d = self.k.diff(b[2], self.k.observe(b[1]))
            self.ctx.check(d is None, "bystander-changed", lambda: f"{what} changed {b[0]} ({type(b[1]).__name__}): {d}")
        for s in self.snaps:
            d = where(s[1], rep(s[0]))
            self.ctx.check(d is None, "snapshot-changed", lambda: f"{what} changed serialized data: {d}")
        self.ctx.count("checks")

    def step(self, i):
        if not self.objs:
            return
        ctx = self.ctx
        op = ctx.weighted([("use", 2), ("snapshot", 3), ("fit", 2), ("overwrite", 3), ("restore", 3)], "op")
        b = self.objs[ctx.draw(len(self.objs), "which")]
        ctx.count("operations")
        ctx.ev(i, op, b[0])
        ctx.cover("fitted op", op)
        if op == "use":
            self.k.use(b[1])
            self.unchanged("using", None)
        elif op == "snapshot" and len(self.snaps) < 3:
            data = b[1].serialize()
            self.snaps.append([data, rep(data), b[2]])
            self.unchanged("serializing")
        elif op == "fit":
            if self.k.fit(b[1]):
                self.unchanged("fitting again", but=b)
        elif op == "overwrite":
            # what was handed out, now or before
            if self.snaps and ctx.chance(1, 2, "earlier"):
                data = self.snaps.pop(ctx.draw(len(self.snaps), "snapshot"))[0]
            else:
                data = b[1].serialize()
            n = scramble(data)
            ctx.count("containers overwritten", n)
            self.unchanged("overwriting serialized data")
        elif op == "restore" and self.snaps and len(self.objs) < 4:
            s = self.snaps[ctx.draw(len(self.snaps), "snapshot")]
            o = self.k.cls.deserialize(s[0])
            shown = self.k.observe(o)
            d = self.k.diff(s[2], shown)
            ctx.check(d is None, "restored-differs", lambda: f"restored from serialized data: {d}")
            self.objs.append([f"restored{i}", o, shown])
            self.unchanged("deserializing")
        ctx.ev("objects", [cmp.digest(repr(b[2])) for b in self.objs], len(self.snaps))
