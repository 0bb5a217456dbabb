"""Frozen parameters never change, the others train."""
import numpy as np
import jax

import parametricmatrixmodels as pmm
from sim import cmp, seams, world
from sim.core import Discard
from sim.setup import Setup


def run(ctx):
    s = Setup(ctx, opts={"complex": ctx.chance(1, 4, "complex"), "depth": 2, "pmm": ctx.chance(1, 4, "pmm")},
              max_n=6, echo_noise=False)
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        body(ctx, s, env)


def snap(m):
    """Per innermost module with parameters: its parameters."""
    return [cmp.freeze(x.get_params()) for x in world.param_modules(m)]


def flags(m):
    return [bool(x.trainable) for x in world.param_modules(m)]


def matters(ctx, s, data, params=None):
    """Which modules the prediction depends on: found by moving them."""
    m = s.model()
    if params is not None:
        m.set_params(params)
    base = np.asarray(m(data["X"]))
    out = []
    rs = np.random.RandomState(5)
    for x in world.param_modules(m):
        old = x.get_params()

        def move(a):
            d = rs.uniform(0.2, 0.4, a.shape)
            d = d + d.T if a.ndim == 2 and a.shape[0] == a.shape[1] else d
            return (a + d.astype(a.dtype)).astype(a.dtype)

        def moveh(a):
            d = rs.uniform(0.2, 0.4, a.shape)
            if a.ndim >= 2 and a.shape[-1] == a.shape[-2]:
                d = d + np.swapaxes(d, -1, -2)
            return (a + d).astype(a.dtype)

        try:
            x.set_params(jax.tree.map(moveh, old))
            new = np.asarray(m(data["X"]))
            out.append(bool(np.max(np.abs(new - base)) > 1e-3))
        except Exception:
            out.append(False)
        x.set_params(old)
    return out


def body(ctx, s, env):
    fs = env.files()
    data = s.data()
    dep = matters(ctx, s, data)
    early = ctx.chance(1, 3, "frozen before compiling")
    m = s.model(compile=not early)
    touched = []
    if early:
        # (Einsum and MatMul take "not trainable" before compiling as "without parameters")
        fixed = (pmm.modules.Einsum, pmm.modules.MatMul)
        nodes = [x for x in world.walk(m) if not any(isinstance(y, fixed) for y in world.walk(x))]
        for _ in range(ctx.between(1, 3, "early freezes") if nodes else 0):
            x = nodes[ctx.draw(len(nodes), "node")]
            val = ctx.chance(3, 4, "freeze it")
            x.freeze() if val else x.unfreeze()
            touched.append((x, val))
        m.compile(s.cseed, world.shape_of(s.x(1, 0)))
    ctx.check(len(world.param_modules(m)) == len(dep), "modules", "number of modules changed")
    n = len(dep)
    frozen = [False] * n
    for x, val in touched:
        ids = {id(y) for y in world.param_modules(x)}
        for j, y in enumerate(world.param_modules(m)):
            if id(y) in ids:
                frozen[j] = val
        ctx.cover("early", type(x).__name__, val)
    if early:
        got = flags(m)
        ctx.check(got == [not f for f in frozen], "flags",
                  lambda: f"{[(type(x).__name__, v) for x, v in touched]} before compiling: trainable {got}, frozen should be {frozen}")
    trained = False
    set_since = False
    ctx.ev("model", s.spec, dep)
    nops = ctx.between(3, 8, "operations")
    trains = 0
    for i in range(nops):
        op = ctx.weighted([("freeze", 5), ("train", 5), ("unfreeze", 3), ("resume", 2), ("freeze model", 2), ("unfreeze model", 1),
                           ("save", 2), ("copy", 1), ("predict", 1), ("set", 1), ("reload in place", 1), ("recompile", 1)], "op")
        if op in ("train", "resume"):
            if trains >= 3:
                continue
        if op == "resume" and (not trained or set_since):
            op = "train"
        ctx.ev(i, op)
        ctx.cover("op", op)
        ctx.count("operations")
        mods = world.param_modules(m)
        before = snap(m)
        if op in ("freeze", "unfreeze"):
            j = ctx.draw(n, "module")
            val = op == "freeze"
            how = ctx.pick(("method", "property"), "how")
            pred = cmp.freeze(m(data["X_val"]))
            if how == "method":
                mods[j].freeze() if val else mods[j].unfreeze()
            else:
                mods[j].trainable = not val
            frozen[j] = val
            same(ctx, m, before, range(n), op)
            d = cmp.diff(cmp.freeze(m(data["X_val"])), pred, rtol=1e-5, atol=1e-6)
            ctx.check(d is None, "prediction-changed", lambda: f"{op} changed the prediction: {d}")
        elif op in ("freeze model", "unfreeze model"):
            inner = [x for x in world.walk(m) if isinstance(x, pmm.Model)]
            x = inner[ctx.draw(len(inner), "model")]
            val = op == "freeze model"
            pred = cmp.freeze(m(data["X_val"]))
            x.freeze() if val else x.unfreeze()
            ids = {id(y) for y in world.param_modules(x)}
            for j, y in enumerate(mods):
                if id(y) in ids:
                    frozen[j] = val
            same(ctx, m, before, range(n), op)
            d = cmp.diff(cmp.freeze(m(data["X_val"])), pred, rtol=1e-5, atol=1e-6)
            ctx.check(d is None, "prediction-changed", lambda: f"{op} changed the prediction: {d}")
        elif op in ("train", "resume"):
            trains += 1
            E = ctx.between(1, 3, "epochs")
            over = {}
            if ctx.chance(1, 4, "verbose"):
                over["verbose"] = True
            rec = world.Recorder()
            # (a PReLU, say, matters only as long as something negative reaches it)
            dep = matters(ctx, s, data, m.get_params())
            lr = s.lr if ctx.chance(1, 2, "constant rate") else (lambda e: s.lr / (1.0 + e))
            try:
                s.train(m, rec, [2.0 - k / 64.0 for k in range(E + 2)], data=data, epochs=E,
                        resume=op == "resume", lr=lr, **over)
            except ValueError:
                # with nothing to train, refusing is fine
                if not all(frozen):
                    raise
                same(ctx, m, before, range(n), op)
                ctx.cover("refused")
                continue
            ctx.count("epochs", E)
            trained, set_since = True, False
            same(ctx, m, before, [j for j in range(n) if frozen[j]], op)
            after = snap(m)
            for j in range(n):
                if not frozen[j] and dep[j]:
                    ctx.check(cmp.diff(after[j], before[j]) is not None, "not-trained",
                              lambda: f"module {j} of {n} is not frozen but did not change in {op} of {E} epochs (frozen: {frozen})")
                    ctx.check(all(np.all(np.isfinite(np.abs(a))) for a in cmp.leaves(after[j])), "not-finite",
                              lambda: f"module {j}")
            ctx.cover("frozen", sum(frozen), "of", n, op)
        elif op in ("save", "reload in place"):
            path = fs.root + f"/m{i}.npz"
            m.save(path)
            if op == "save":
                ctx.fault("process-restart")
                m = pmm.SequentialModel.from_file(path)
            else:
                m.load(path)
            same(ctx, m, before, range(n), op)
        elif op == "copy":
            m = m.copy()
            same(ctx, m, before, range(n), op)
        elif op == "predict":
            m(data["X"])
            same(ctx, m, before, range(n), op)
        elif op == "recompile":
            m.compile(ctx.draw(50, "compile seed"), world.shape_of(s.x(1, 0)))
            set_since = True
        elif op == "set":
            j = ctx.draw(n, "module")
            mods[j].set_params(jax.tree.map(lambda a: a * np.asarray(1.25, a.dtype), mods[j].get_params()))
            same(ctx, m, before, [k for k in range(n) if k != j], op)
            set_since = True
        got = flags(m)
        ctx.check(got == [not f for f in frozen], "flags", lambda: f"after {op}: trainable {got}, frozen should be {frozen}")
    ctx.ev("end", [cmp.tdigest(x) for x in snap(m)])


def same(ctx, m, before, which, op):
    after = snap(m)
    ctx.check(len(after) == len(before), "modules", lambda: f"{op}: {len(before)} modules became {len(after)}")
    for j in which:
        d = cmp.diff(after[j], before[j])
        ctx.check(d is None, "frozen-changed" if op in ("train", "resume") else "changed",
                  lambda: f"{op} changed the parameters of module {j}: {d}")
