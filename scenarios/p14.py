"""Editing the list of modules behaves like editing a list."""
import numpy as np
import jax

import parametricmatrixmodels as pmm
from parametricmatrixmodels import modules as M
from sim import cmp, inject, seams, simmods, world, zoo

TOL = dict(rtol=2e-5, atol=2e-6)
W = 2


def run(ctx):
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")):
        w = World(ctx)
        w.start()
        for i in range(ctx.between(3, 14, "operations")):
            w.step(i)
        for x in list(w.models):
            w.use(x)


class Model:
    """A model and the plain container its modules should be like."""

    def __init__(self, name, m, mirror):
        self.name, self.m, self.mirror = name, m, mirror
        self.compiled = False

    def order(self, mirror=None):
        c = self.mirror if mirror is None else mirror
        return list(c.values()) if isinstance(c, dict) else list(c)

    def items(self):
        return list(self.mirror.items())


def same(a, b):
    """Two containers of modules are the same, module for module."""
    if type(a) is not type(b) or len(a) != len(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(a[k] is b[k] for k in a)
    return all(x is y for x, y in zip(a, b))


def show(c):
    if isinstance(c, dict):
        return "{" + ", ".join(f"{k}: {label(v)}" for k, v in c.items()) + "}"
    if isinstance(c, (list, tuple)):
        return type(c).__name__ + "(" + ", ".join(label(v) for v in c) + ")"
    return repr(c)


def label(m):
    return getattr(m, "label", type(m).__name__)


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.models = []
        self.free = []  # modules in no model
        self.n = 0
        self.trains = 0

    # ------------------------------------------------------------- material
    def module(self, x=None):
        """A new module, one that was removed earlier, or one that is there
        already."""
        ctx = self.ctx
        if x is not None and ctx.chance(1, 8, "twice"):
            there = [m for m in x.order() if not isinstance(m, pmm.Model)]
            if there:
                ctx.cover("twice", type(x.mirror).__name__)
                return there[ctx.draw(len(there), "which")]
        if self.free and ctx.chance(1, 3, "reuse"):
            return self.free.pop(ctx.draw(len(self.free), "which"))
        self.n += 1
        t = ctx.weighted([("scale", 3), ("bias", 3), ("act", 3), ("linear", 2), ("seq", 2), ("comment", 1), ("matmul", 1)], "module")
        if t == "scale":
            m = simmods.Scale(0.5 + self.n % 5)
        elif t == "bias":
            m = M.Bias(init_magnitude=1.0)
        elif t == "act":
            m = world.act_class(ctx.draw(4, "act"))()
        elif t == "linear":
            m = M.LinearNN(out_features=W, init_magnitude=0.8)
        elif t == "matmul":
            m = M.MatMul(output_shape=W, trainable=True, init_magnitude=0.8)
        elif t == "comment":
            m = M.Comment("note")
        else:
            m = pmm.SequentialModel([M.Bias(init_magnitude=1.0), world.act_class(ctx.draw(4, "act"))()], rng=self.n)
        m.label = f"{t}{self.n}"
        return m

    def start(self):
        ctx = self.ctx
        for _ in range(ctx.between(1, 2, "models")):
            kind = ctx.pick(("list", "tuple", "dict"), "container")
            mods = [self.module() for _ in range(ctx.between(1, 3, "modules"))]
            c = world.contain(kind, mods) if kind != "dict" else {f"m{500 + i * 10}": m for i, m in enumerate(mods)}
            m = pmm.SequentialModel(c, rng=self.n)
            self.add(m, c)
            ctx.ev("model", kind, [label(x) for x in mods])
        self.all("building")

    def add(self, m, c):
        c = c.copy() if isinstance(c, (list, dict)) else c
        x = Model(f"model{len(self.models) + 1}", m, c)
        self.models.append(x)
        return x

    # --------------------------------------------------------------- checks
    def all(self, what):
        for x in self.models:
            got = x.m.get_modules()
            self.ctx.check(same(got, x.mirror), "order", lambda: f"after {what}, {x.name} holds {show(got)}, not {show(x.mirror)}")
            if x.compiled is None:
                continue
            if not x.compiled:
                self.ctx.check(not x.m.is_ready(), "ready-unexpectedly", lambda: f"after {what}, {x.name} is ready without having been compiled")
            elif not self.inner_edited(x):
                self.ctx.check(x.m.is_ready(), "not-ready", lambda: f"{what} made {x.name} unusable")
        self.ctx.count("checks")

    def inner_edited(self, x):
        return any(isinstance(m, pmm.Model) and not m.is_ready() for m in x.order())

    def orders(self, x):
        """Orders in which the modules may be applied.  (That dictionaries are
        applied in the order of their keys is a known finding.)"""
        out = [x.order()]
        if isinstance(x.mirror, dict):
            out.append([x.mirror[k] for k in sorted(x.mirror)])
        return out

    def compile(self, x):
        x.m.compile(self.ctx.draw(50, "seed"), (W,))
        x.compiled = True

    def use(self, x):
        """Compile if needed, predict, and compare with applying the modules
        one after the other."""
        ctx = self.ctx
        X = zoo.data((W,), 3, 11)
        if not x.order():
            return
        if not x.compiled or self.inner_edited(x):
            if (x.compiled is False or self.inner_edited(x)) and ctx.chance(1, 2, "too early"):
                try:
                    x.m(X)
                except RuntimeError:
                    pass
                else:
                    ctx.fail("used-uncompiled", f"{x.name} was edited and not compiled, but predicted")
            self.compile(x)
            self.all("compiling")
        got = cmp.freeze(x.m(X))
        wants = []
        for order in self.orders(x):
            D = X
            for m in order:
                if isinstance(m, pmm.Model):
                    D = m(D)
                else:
                    D, _ = m(D, state=m.get_state(), rng=jax.random.key(0))
            wants.append(cmp.freeze(D))
        ds = [cmp.diff(got, w, dtypes=False, **TOL) for w in wants]
        ctx.check(None in ds, "composition", lambda: f"{x.name} = {show(x.mirror)} predicts {got.ravel()[:4]}, its modules in order give {wants[0].ravel()[:4]}")
        ctx.count("predictions")
        self.all("predicting")

    # ------------------------------------------------------------------ ops
    def step(self, i):
        ctx = self.ctx
        op = ctx.weighted([("append", 4), ("prepend", 3), ("insert", 5), ("pop index", 5), ("pop key", 3), ("replace", 4), ("add", 3), ("use", 5),
                           ("failed", 4), ("slice", 1), ("share", 1), ("inner", 2), ("train", 1), ("replace all", 1)], "op")
        x = self.models[ctx.draw(len(self.models), "which")]
        ctx.ev(i, op, x.name)
        ctx.cover(op, type(x.mirror).__name__, "compiled" if x.compiled else "")
        ctx.count("operations")
        getattr(self, "op_" + op.replace(" ", "_"))(x)
        ctx.ev([show(y.mirror) for y in self.models])

    def key(self, x, i):
        """A key for a dictionary, mostly one that sorts into its place."""
        ks = sorted(x.mirror)
        its = list(x.mirror)
        if its != ks or self.ctx.chance(1, 6, "unsorted key"):
            self.n += 1
            return f"x{self.n}"
        lo = its[i - 1] if i > 0 else "m"
        hi = its[i] if i < len(its) else None
        if i == 0 and hi is not None:
            self.n += 1
            return f"m0{'0' * 30}{chr(200 - self.n)}" if self.n < 70 else f"m0{self.n}"
        return lo + "5"

    def edit(self, x, what, f, mirror, extra=None):
        """Perform an edit, possibly failing at some line of the library."""
        ctx = self.ctx
        old = x.mirror
        if ctx.chance(1, 6, "failure"):
            exc = simmods.InjectedError("simulated")
            try:
                with inject.Lines(ctx.between(1, 12, "line"), exc) as ln:
                    f()
            except simmods.InjectedError:
                pass
            if ln.where is not None:
                ctx.fault("exception-at-line", what)
                got = x.m.get_modules()
                ctx.check(same(got, old) or same(got, mirror), "half-edited",
                          lambda: f"{what} failing at {ln.where} left {show(got)}, neither {show(old)} nor {show(mirror)}")
                x.mirror = mirror if same(got, mirror) else old
                x.compiled = False
                # whether it needs compiling again is open
                x.m.reset()
                self.all(f"failed {what}")
                return None
            r = None
        else:
            r = f()
        x.mirror = mirror
        x.compiled = False
        self.all(what)
        return r if r is not None else True

    def put(self, x, i, what, f, m):
        c = x.mirror
        if isinstance(c, dict):
            j = len(list(c)[:i])
            k = self.key(x, j)
            its = list(c.items())
            its.insert(i, (k, m))
            if self.ctx.chance(1, 5, "no key"):
                f(m)
                got = x.m.get_modules()
                new = [q for q in got if q not in c]
                self.ctx.check(len(new) == 1, "order", lambda: f"{what} without a key gave {show(got)}")
                its[its.index((k, m))] = (new[0], m)
                x.mirror, x.compiled = dict(its), False
                self.all(what)
                return
            self.edit(x, what, lambda: f(m, key=k), dict(its))
        else:
            new = list(c)
            new.insert(i, m)
            self.edit(x, what, lambda: f(m, key="ignored") if self.ctx.chance(1, 5, "give key") else f(m), type(c)(new))

    def op_append(self, x):
        name = self.ctx.pick(("append_module", "append", "add", "add_module"), "alias")
        self.put(x, len(x.mirror), name, getattr(x.m, name), self.module(x))

    def op_prepend(self, x):
        name = self.ctx.pick(("prepend_module", "prepend"), "alias")
        self.put(x, 0, name, getattr(x.m, name), self.module(x))

    def op_insert(self, x):
        n = len(x.mirror)
        i = self.ctx.draw(2 * n + 3, "index") - n - 1
        name = self.ctx.pick(("insert_module", "insert"), "alias")
        f = getattr(x.m, name)
        self.put(x, i, f"{name} at {i}", lambda m, **kw: f(i, m, **kw), self.module(x))

    def op_pop_index(self, x):
        n = len(x.mirror)
        if not n:
            return
        i = self.ctx.draw(2 * n, "index") - n
        self.remove(x, i, f"pop_module_by_index({i})", lambda: x.m.pop_module_by_index(i))

    def op_pop_key(self, x):
        n = len(x.mirror)
        if not n:
            return
        name = self.ctx.pick(("pop_module_by_key", "pop"), "alias")
        f = getattr(x.m, name)
        i = self.ctx.draw(2 * n, "index") - n
        k = list(x.mirror)[i] if isinstance(x.mirror, dict) else i
        self.remove(x, i, f"{name}({k!r})", lambda: f(k))

    def remove(self, x, i, what, f):
        c = x.mirror
        if isinstance(c, dict):
            its = list(c.items())
            gone = its.pop(i)[1]
            new = dict(its)
        else:
            its = list(c)
            gone = its.pop(i)
            new = type(c)(its)
        r = self.edit(x, what, f, new)
        if r is None:
            return
        if r is not True:
            self.ctx.check(r is gone, "removed-other", lambda: f"{what} of {show(c)} gave {label(r)}, not {label(gone)}")
        if not any(gone is m for y in self.models for m in y.order()):
            self.free.append(gone)

    def op_replace(self, x):
        c = x.mirror
        if isinstance(c, tuple):
            return self.op_failed(x)
        n = len(c)
        if isinstance(c, dict):
            if n == 0 or self.ctx.chance(1, 4, "new key"):
                k = self.key(x, n)
            else:
                k = list(c)[self.ctx.draw(n, "which")]
        else:
            if n == 0:
                return
            k = self.ctx.draw(2 * n, "index") - n
        m = self.module()
        new = c.copy()
        new[k] = m
        key = (k,) if self.ctx.chance(1, 3, "key path") else k

        def f():
            x.m[key] = m

        self.edit(x, f"replacing {key!r}", f, new)

    def op_replace_all(self, x):
        ms = [self.module() for _ in range(self.ctx.between(1, 2, "modules"))]
        c = self.ctx.pick((list, tuple), "container")(ms)

        def f():
            x.m[None] = c

        self.edit(x, "replacing all", f, type(c)(c))

    def op_slice(self, x):
        c = x.mirror
        if not isinstance(c, list):
            return
        a = self.ctx.draw(len(c) + 1, "from")
        b = self.ctx.draw(len(c) + 1, "to")
        ms = [self.module() for _ in range(self.ctx.draw(3, "modules"))]
        new = list(c)
        new[a:b] = ms

        def f():
            x.m[a:b] = ms

        self.edit(x, f"replacing {a}:{b}", f, new)

    def op_add(self, x):
        """model + module is a new model."""
        if len(self.models) >= 4:
            return
        m = self.module()
        c = x.mirror
        new = x.m + m
        self.ctx.check(new is not x.m, "add-in-place", "+ gave the model itself")
        if isinstance(c, dict):
            ks = [k for k in new.get_modules() if k not in c]
            self.ctx.check(len(ks) == 1, "order", lambda: f"+ gave {show(new.get_modules())}")
            c = dict(list(c.items()) + [(ks[0], m)])
        else:
            c = type(c)(list(c) + [m])
        self.add(new, c)
        self.all("+")

    def op_share(self, x):
        """A second model made from the same container."""
        if len(self.models) >= 4:
            return
        self.add(pmm.SequentialModel(x.m.get_modules(), rng=3), x.mirror)
        self.all("building from the same modules")

    def op_inner(self, x):
        """Edit a model inside the model."""
        ms = [m for m in x.order() if type(m) is pmm.SequentialModel]
        if not ms:
            return
        m = ms[self.ctx.draw(len(ms), "which")]
        new = world.build_module(self.ctx.pick((["act", 3], ["bias"], ["act", 0]), "new"))
        n = len(m.get_modules())
        how = self.ctx.pick(("append", "replace", "pop"), "how")
        old = list(m.get_modules())
        if how == "append":
            m.append_module(new)
            want = old + [new]
        elif how == "replace":
            m[n - 1] = new
            want = old[:-1] + [new]
        elif n > 1:
            m.pop_module_by_index(0)
            want = old[1:]
        else:
            return
        self.ctx.check(same(m.get_modules(), want), "order", lambda: f"inner {how} gave {show(m.get_modules())}")
        self.ctx.check(not m.is_ready(), "ready-unexpectedly", "an edited inner model is ready")
        for y in self.models:
            # models around it need compiling again
            if any(m is q for q in y.order()):
                self.ctx.check(not y.m.is_ready(), "ready-unexpectedly", lambda: f"{y.name} is ready although a model inside was edited")
                # (compiling the inner one elsewhere makes them look ready)
                y.compiled = None
        self.ctx.cover("inner", how)
        self.all("editing an inner model")

    def op_use(self, x):
        self.use(x)

    def op_train(self, x):
        if self.trains or not x.order() or not self.ctx.chance(1, 2, "train"):
            return
        if not x.compiled or self.inner_edited(x):
            self.compile(x)
        if not any(m.trainable for m in world.param_modules(x.m)):
            return
        self.trains += 1
        X = zoo.data((W,), 2, 12)
        x.m.train(X, zoo.data((W,), 2, 13), epochs=1, lr=0.05, batch_size=2, verbose=False, batch_rng=1)
        self.all("training")
        self.use(x)

    def op_failed(self, x):
        """Edits that no list, tuple or dictionary takes."""
        c = x.mirror
        n = len(c)
        m = self.module()
        k = self.ctx.draw(5, "mistake")

        def put(key):
            x.m[key] = m

        if isinstance(c, dict):
            f = [lambda: x.m.pop_module_by_key("missing"), lambda: x.m.pop_module_by_index(n), lambda: put(0), lambda: x.m.pop_module_by_key(0),
                 lambda: x.m.pop_module_by_index(-n - 1)][k]
        elif isinstance(c, list):
            f = [lambda: x.m.pop_module_by_index(n), lambda: x.m.pop_module_by_index(-n - 1), lambda: put(n), lambda: put("a"),
                 lambda: x.m.pop_module_by_key("a")][k]
        else:
            f = [lambda: x.m.pop_module_by_index(n), lambda: x.m.pop_module_by_index(-n - 1), lambda: put(0), lambda: put("a"),
                 lambda: x.m.pop_module_by_key("a")][k]
        try:
            f()
        except Exception:
            pass
        else:
            self.ctx.fail("accepted", f"mistake {k} on {show(c)} was accepted, leaving {show(x.m.get_modules())}")
        self.ctx.fault("invalid-edit", k)
        self.free.append(m)
        # it may have to be compiled again
        got = x.m.get_modules()
        self.ctx.check(same(got, c), "failed-edit-changed", lambda: f"a failed edit left {show(got)}, not {show(c)}")
        x.compiled = x.compiled if x.m.is_ready() else False
        self.all("a failed edit")
