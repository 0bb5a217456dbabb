"""Predictions depend only on the model's current contents."""
import copy
import zipfile

import numpy as np
import jax
import jax.numpy as jnp

import parametricmatrixmodels as pmm
from beartype.roar import BeartypeCallHintViolation
from sim import cmp, inject, seams, simmods, world, zoo
from sim.setup import Setup

TOL = dict(rtol=2e-5, atol=2e-6)


def run(ctx):
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        if ctx.cycle([(False, 2), (True, 1)], "zoo"):
            h = ZooHost(ctx)
        else:
            h = Host(ctx)
        h.env = env
        body(ctx, h, env)


class Host:
    """A model under a history of operations, and fresh twins of it."""

    grads = True
    trains = True

    def __init__(self, ctx):
        self.ctx = ctx
        cplx = ctx.chance(1, 5, "complex")
        self.s = Setup(ctx, opts={"complex": cplx, "depth": 2, "pmm": ctx.chance(1, 4, "pmm")}, max_n=5, echo_noise=False)
        self.spec = copy.deepcopy(self.s.spec)
        self.m = self.s.model()
        self.shape = world.shape_of(self.s.x(1, 0))
        self.grads_in = self.grads = not world.has_complex(self.spec)
        if self.s.xkind != "array" and self.s.w != 2:
            self.grads_in = False  # leaves of different sizes are rejected
        self.trained = 0
        ctx.ev("model", self.spec, self.s.xkind)

    def x(self, n, seed):
        return world.make_x(self.s.xkind, n, self.s.w, seed)

    def fresh(self):
        t = world.build(self.spec, rng=7)
        t.compile(8, self.shape)
        copy_contents(self.m, t)
        return t

    def train(self):
        s, ctx = self.s, self.ctx
        if self.trained >= 2 or not any(x.trainable for x in world.param_modules(self.m)):
            return False
        self.trained += 1
        E = ctx.between(1, 2, "epochs")
        s.train(self.m, world.Recorder(), [2.0 - i / 64.0 for i in range(E + 2)], epochs=E, fwd=False)
        ctx.count("epochs", E)
        return True

    def edit(self):
        """Change the list of modules and compile again."""
        ctx = self.ctx
        inner = list(nested(self.spec, self.m))
        if inner and ctx.chance(1, 2, "inside"):
            return self.edit_inside(*inner[ctx.draw(len(inner), "which model")])
        e = ctx.pick(("insert", "remove", "replace", "wider"), "edit")
        kids = self.spec[2]
        dictlike = self.spec[1] == "dict"
        if e == "insert":
            # before the echo at the end
            new = ctx.pick((["scale"], ["bias"], ["act", 0]), "new")
            i = len(kids) - 1
            if dictlike:
                self.m.insert_module(i, world.build_module(new), f"k{i - 1:02d}x")
                return False
            self.m.insert_module(i, world.build_module(new))
            self.spec = [self.spec[0], self.spec[1], kids[:i] + [new] + kids[i:]]
        elif e == "remove":
            flats = [i for i, c in enumerate(kids) if c[0] in ("scale", "bias", "act", "prelu", "comment")]
            if not flats or dictlike:
                return False
            i = flats[ctx.draw(len(flats), "which")]
            self.m.pop_module_by_index(i)
            self.spec = [self.spec[0], self.spec[1], kids[:i] + kids[i + 1:]]
        elif e == "replace":
            flats = [i for i, c in enumerate(kids) if c[0] in ("scale", "bias", "act", "prelu")]
            if not flats or self.spec[1] == "tuple":
                return False
            i = flats[ctx.draw(len(flats), "which")]
            new = ctx.pick((["scale", 2.5], ["bias"], ["act", 3]), "new")
            self.m[f"k{i:02d}" if dictlike else i] = world.build_module(new)
            self.spec = [self.spec[0], self.spec[1], kids[:i] + [new] + kids[i + 1:]]
        else:
            return self.recompile(other=True)
        self.recompile()
        return True

    def edit_inside(self, kids, m):
        """Edit a model within the model, and compile the whole again."""
        ctx = self.ctx
        flats = [i for i, c in enumerate(kids) if c[0] in ("scale", "bias", "act", "prelu")]
        e = ctx.pick(("insert", "remove", "replace"), "edit inside")
        new = ctx.pick((["scale", 2.5], ["bias"], ["act", 3]), "new")
        if e == "insert" or not flats or (e == "remove" and len(kids) < 2):
            m.insert_module(0, world.build_module(new))
            kids.insert(0, new)
        elif e == "remove":
            i = flats[ctx.draw(len(flats), "which")]
            m.pop_module_by_index(i)
            del kids[i]
        else:
            i = flats[ctx.draw(len(flats), "which")]
            m[i] = world.build_module(new)
            kids[i] = new
        ctx.cover("edited inside", e)
        self.recompile()
        return True

    def recompile(self, other=False):
        if other and self.s.xkind == "array":
            kids = str(self.spec)
            if any(x in kids for x in ("'mod'", "einsum", "matmul")):
                return False  # these refuse another shape
            self.s.w = 5 - self.s.w
            self.shape = (self.s.w,)
            # parameters of another width do not fit: start afresh
            self.m.reset()
            for x in world.walk(self.m):
                if x is not self.m and isinstance(x, pmm.Model):
                    x.reset()
        self.m.compile(self.ctx.draw(50, "compile seed"), self.shape)
        return True


class ZooHost(Host):
    trains = False
    grads = grads_in = False

    def __init__(self, ctx):
        self.ctx = ctx
        specs, self.shape = zoo.gen(ctx)
        self.spec = ["seq", ctx.pick(("list", "tuple", "dict"), "container"), specs]
        self.m = world.build(self.spec, rng=ctx.draw(50, "rng"))
        self.m.compile(ctx.draw(50, "seed"), self.shape)
        ctx.ev("zoo", self.spec)

    def x(self, n, seed):
        return zoo.data(self.shape, n, seed)

    def train(self):
        return False

    def edit(self):
        return False

    def recompile(self, other=False):
        self.m.compile(self.ctx.draw(50, "compile seed"), self.shape)
        return True


def nested(spec, m):
    """The lists of modules within a model, with the models that hold them."""
    if spec[0] == "seq":
        kids = [(f"k{i:02d}" if spec[1] == "dict" else i, c) for i, c in enumerate(spec[2])]
    elif spec[0] == "nonseq" and isinstance(spec[1], dict):
        kids = list(spec[1].items())
    else:
        return
    for k, c in kids:
        if c[0] in ("seq", "nonseq"):
            if c[0] == "seq" and c[1] == "list":
                yield c[2], m[k]
            yield from nested(c, m[k])


def copy_contents(src, dst):
    for a, b in zip(world.walk(src), world.walk(dst)):
        if not isinstance(a, pmm.Model) and a.trainable != b.trainable:
            b.trainable = a.trainable
    dst.set_params(src.get_params())
    dst.set_state(src.get_state())
    dst.set_rng(src.get_rng())


def options(ctx, n, grad=False):
    kw = {}
    if ctx.chance(2, 3, "limit batches"):
        kw["max_batch_size"] = ctx.between(1, n + 1, "max batch")
    if ctx.chance(1, 3, "avoid recompilation"):
        kw["avoid_recompilation"] = True
    if ctx.chance(1, 5, "verbose"):
        kw["verbose"] = True
    if ctx.chance(1, 3, "key"):
        kw["rng"] = ctx.draw(20, "key")
    if ctx.chance(1, 4, "float32"):
        kw["dtype"] = jnp.float32
    if grad and ctx.chance(1, 2, "mode"):
        kw["fwd"] = ctx.chance(1, 2, "fwd")
    return kw


def evaluate(ctx, h, again=None):
    """One evaluation of the model and of fresh twins of it (again: the same
    one as before)."""
    m = h.m
    if again is not None:
        return judge(ctx, h, *again)
    kinds = [("predict", 4)]
    if h.grads_in:
        kinds.append(("grad_input", 2))
    if h.grads:
        kinds.append(("grad_params", 2))
    what = ctx.weighted(kinds, "evaluation")
    n = ctx.between(1, 5, "rows")
    X = h.x(n, 100 + ctx.draw(10, "input"))
    kw = options(ctx, n, grad=what != "predict")
    state = ctx.chance(1, 4, "return state")
    return judge(ctx, h, what, n, X, kw, state)


def judge(ctx, h, what, n, X, kw, state):
    m = h.m
    X0 = cmp.freeze(X)
    before = full(m)
    ctx.ev(what, n, {k: str(v) for k, v in kw.items()})
    got = getattr(m, what)(X, return_state=True, **kw) if state else (getattr(m, what)(X, **kw), None)
    d = cmp.diff(before, full(m)) or cmp.diff(X0, cmp.freeze(X))
    ctx.check(d is None, "evaluation-changed-model", lambda: f"{what} {kw}: {d}")
    t = h.fresh()
    d = cmp.diff(before, full(t))
    ctx.check(d is None, "contents", lambda: f"set contents are not got back: {d}")
    tw = dict(kw)
    # the fresh twin evaluates everything at once
    for k in ("max_batch_size", "avoid_recompilation", "verbose"):
        tw.pop(k, None)
    want = getattr(t, what)(X, return_state=True, **tw)
    # forward and reverse mode may give different precisions
    d = cmp.diff(cmp.freeze(got[0]), cmp.freeze(want[0]), dtypes=what == "predict", **TOL)
    ctx.cover(what, *sorted(kw))
    ctx.check(d is None, "differs-from-fresh", lambda: f"{what} with {kw} of {n} rows: {d}")
    if state:
        d = cmp.diff(cmp.freeze(got[1]), cmp.freeze(want[1]))
        ctx.check(d is None, "state-differs-from-fresh", lambda: f"{what} with {kw}: returned state {d}")
    ctx.count("checks")
    return what, n, X, kw, state


def full(m):
    return [cmp.freeze(m.get_params()), cmp.freeze(m.get_state()), cmp.freeze(m.get_rng())]


def body(ctx, h, env):
    fs = env.files()
    ops = ctx.between(2, 9, "operations")
    evals = 0
    for i in range(ops):
        op = ctx.weighted([("evaluate", 6), ("twice", 4), ("set params", 3), ("set state", 1), ("set rng", 2), ("freeze", 2), ("unfreeze", 1),
                           ("train", 2), ("recompile", 2), ("edit", 2), ("load", 2), ("reload", 1), ("copy", 1), ("update", 1), ("failure", 4)], "op")
        if i == 0 and not h.trains:
            op = "twice"
        m = h.m
        mods = world.param_modules(m)
        ctx.count("operations")
        if op == "evaluate":
            evaluate(ctx, h)
            evals += 1
            continue
        ctx.ev(i, op)
        ctx.cover("op", op)
        if op == "twice":
            # the same evaluation before and after a change of contents
            if mods and ctx.chance(1, 2, "freeze first"):
                x = mods[ctx.draw(len(mods), "module")]
                x.unfreeze() if not x.trainable else x.freeze()
            plan = evaluate(ctx, h)
            change = ctx.weighted([("params", 4), ("module", 2), ("rng", 1), ("state", 1), ("freeze", 1)], "change")
            f = ctx.pick((0.5, 1.25), "factor")
            if change == "params":
                m.set_params(jax.tree.map(lambda a: (a * f).astype(a.dtype), m.get_params()))
            elif change == "module" and mods:
                x = mods[ctx.draw(len(mods), "module")]
                x.set_params(jax.tree.map(lambda a: (a * f).astype(a.dtype), x.get_params()))
            elif change == "rng":
                m.set_rng(ctx.draw(100, "key"))
            elif change == "state":
                m.set_state(jax.tree.map(lambda a: a + 3, m.get_state()))
            elif change == "freeze" and mods:
                x = mods[ctx.draw(len(mods), "module")]
                x.unfreeze() if not x.trainable else x.freeze()
            evaluate(ctx, h, plan)
            evals += 2
        elif op == "set params":
            f = ctx.pick((0.5, 1.25, 0.8), "factor")
            if mods and ctx.chance(1, 2, "one module"):
                x = mods[ctx.draw(len(mods), "module")]
                x.set_params(jax.tree.map(lambda a: (a * f).astype(a.dtype), x.get_params()))
            else:
                m.set_params(jax.tree.map(lambda a: (a * f).astype(a.dtype), m.get_params()))
        elif op == "set state":
            m.set_state(jax.tree.map(lambda a: a + 3, m.get_state()))
        elif op == "set rng":
            m.set_rng(ctx.draw(100, "key"))
        elif op in ("freeze", "unfreeze") and mods:
            x = mods[ctx.draw(len(mods), "module")] if ctx.chance(2, 3, "one") else m
            x.freeze() if op == "freeze" else x.unfreeze()
        elif op == "train":
            h.train()
        elif op == "recompile":
            h.recompile()
        elif op == "edit":
            if not h.edit():
                # a dictionary got a key of its own: start again from it
                if not h.m.is_ready() or h.spec[1] == "dict":
                    rebuild(ctx, h)
        elif op == "load":
            # contents of another model of the same structure
            o = h.fresh()
            o.set_params(jax.tree.map(lambda a: (a * 0.7).astype(a.dtype), o.get_params()))
            o.set_rng(ctx.draw(100, "key"))
            p = fs.root + f"/o{i}.npz"
            o.save(p)
            m.load(p)
        elif op == "reload":
            p = fs.root + f"/r{i}.npz"
            m.save(p)
            h.m = pmm.SequentialModel.from_file(p)
        elif op == "copy":
            h.m = m.copy()
        elif op == "failure":
            failure(ctx, h, fs, i)
        elif op == "update":
            X = h.x(3, 5)
            before = full(m)
            kw = options(ctx, 3)
            out, st = m(X, update_state=True, return_state=True, **kw)
            d = cmp.diff(cmp.freeze(st), cmp.freeze(m.get_state()))
            ctx.check(d is None, "update-state", lambda: f"updated state is not the returned one: {d}")
            d = cmp.diff(before[0], cmp.freeze(m.get_params())) or cmp.diff(before[2], cmp.freeze(m.get_rng()))
            ctx.check(d is None, "evaluation-changed-model", lambda: f"update_state: {d}")
    evaluate(ctx, h)


def failure(ctx, h, fs, i):
    """An evaluation, load or training that fails partway."""
    kind = ctx.pick(("line", "module", "file", "shape"), "failure")
    m = h.m
    exc = simmods.InjectedError("simulated")
    n = ctx.between(1, 4, "rows")
    X = h.x(n, 50)
    before = full(m)
    kw = options(ctx, n)
    fired = True
    try:
        if kind == "line":
            what = "predict"
            if h.grads and h.grads_in:
                what = ctx.pick(("predict", "grad_input", "grad_params"), "evaluation")
            with inject.Lines(ctx.between(1, 120, "line"), exc) as ln:
                try:
                    getattr(m, what)(X, **kw)
                finally:
                    fired = ln.where is not None
        elif kind == "module":
            simmods.FIRED.clear()
            simmods.FAULTS[ctx.pick(("echo.trace", "echo.get_callable"), "point")] = [0, exc]
            try:
                m(X, **kw)
            finally:
                fired = bool(simmods.FIRED)
                simmods.FAULTS.clear()
        elif kind == "file":
            p = fs.root + f"/f{i}.npz"
            m.save(p)
            with open(p, "r+b") as f:
                f.truncate(ctx.between(10, 3000, "cut"))
            m.load(p)
        else:
            m(jax.tree.map(lambda a: a[..., None], X), **kw)
    except (simmods.InjectedError, ValueError, TypeError, OSError, KeyError, EOFError, RuntimeError, zipfile.BadZipFile, BeartypeCallHintViolation):
        pass
    if fired:
        ctx.fault("failed-" + kind)
    d = cmp.diff(before, full(m))
    ctx.check(d is None, "failure-changed-model", lambda: f"failed {kind}: {d}")


def rebuild(ctx, h):
    h.m = world.build(h.spec, rng=3)
    h.m.compile(4, h.shape)
