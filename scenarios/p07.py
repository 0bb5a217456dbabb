"""Resumed training carries on where it left off."""
import jax.numpy as jnp
import numpy as np

import parametricmatrixmodels as pmm
from sim import cmp, seams, world
from sim.setup import Setup


def run(ctx):
    branches = ctx.cycle([(False, 2), (True, 1)], "branches")
    s = Setup(ctx, opts={"complex": True, "depth": 1, "pmm": ctx.chance(1, 4, "pmm")}, echo_noise=False,
              full_batch=True, max_n=5, spec=two_branches if branches else None)
    clock = ctx.pick(("steady",) + seams.Clock.MODES, "clock")
    with seams.Env(ctx, clock=clock, seed=ctx.draw(50, "ambient")) as env:
        (branch_body if branches else body)(ctx, s, env)


def two_branches(s, heads):
    """Two parts that do not influence each other in a loss that is a sum."""
    c = s.ctx
    s.k = 2
    opts = {"complex": True, "pmm": c.chance(1, 6, "pmm"), "nested": False}

    def part():
        out, _ = world.gen_layer(c, s.w, 1, opts)
        return ["seq", c.pick(("list", "tuple", "dict"), "container"), out + world.gen_flat(c, {})]

    mods = {"a": part(), "b": part(), "m": ["merge"]}
    return ["seq", c.pick(("list", "tuple", "dict"), "container"), heads + [
        ["nonseq", mods, {"input": ["a", "b"], "a": "m.0", "b": "m.1", "m": "output"}],
        ["echo", {"tag": 0, "noise": 0.0, "touch": False}]]]


def parts(m):
    """The two parts of a model made by two_branches."""
    for x in world.walk(m):
        if isinstance(x, pmm.NonSequentialModel):
            mods = x.get_modules()
            return {k: mods[k] for k in "ab"}
    raise AssertionError


def branch_body(ctx, s, env):
    """Parts that sit out pieces of training continue where they were."""
    fs = env.files()
    many = s.model()
    data = s.data()
    positions, lrs, kw = options(ctx, data)
    turns = [ctx.pick(("ab", "a", "b"), "who trains") for _ in range(ctx.between(2, 4, "pieces"))]
    turns = [(who, ctx.between(1, 3, "piece")) for who in turns]
    count = {k: sum(n for who, n in turns if k in who) for k in "ab"}
    ctx.ev("branches", s.spec, turns, lrs)
    ctx.cover("turns", min(len(turns), 3), "sat out", sum(1 for w, _ in turns if len(w) == 1))
    ones = {}
    for n in sorted(set(count.values())):
        one = ones[n] = s.model()
        if n:
            s.train(one, world.Recorder(), down(n), epochs=n, **kw)
            ctx.count("epochs", n)
    start = {k: flatp(p) for k, p in parts(s.model()).items()}
    done = 0
    for i, (who, n) in enumerate(turns):
        for k, p in parts(many).items():
            p.unfreeze() if k in who else p.freeze()
        s.train(many, world.Recorder(), down(n), epochs=n, resume=i > 0, batch_rng=s.bseed + i, **kw)
        done += n
        ctx.count("epochs", n)
        ctx.fault("sat-out", 2 - len(who))
        ctx.check(world.train_calls(many) == done * s.spe, "state", lambda: f"state counts {world.train_calls(many)} steps after {done} epochs")
        if i + 1 < len(turns):
            many = between(ctx, fs, many, s, data, i)
    for k, p in parts(many).items():
        want, got = flatp(parts(ones[count[k]])[k]), flatp(p)
        compare(ctx, want, got, start[k], [lrs[i % positions] for i in range(count[k])], f"part {k} of {turns}")


def down(n, start=2.0):
    return [start - i / 64.0 for i in range(n + 2)]


def body(ctx, s, env):
    fs = env.files()
    one, many = s.model(), s.model()
    data = s.data()
    pieces = [ctx.between(1, 4, "piece") for _ in range(ctx.between(2, 4, "pieces"))]
    total = sum(pieces)
    positions, lrs, kw = options(ctx, data)
    frozen = ctx.chance(1, 4, "freeze one")
    if frozen:
        for x in (one, many):
            mods = world.param_modules(x)
            if len(mods) > 1:
                mods[0].freeze()
    before = flatp(one)
    s.train(one, world.Recorder(), down(total), epochs=total, **kw)
    ctx.ev("one go", s.spec, total, lrs, cmp.tdigest(world.contents(one)["params"]))
    ctx.cover("complex", world.has_complex(s.spec), "pieces", len(pieces), "schedule", positions > 1)
    done = 0
    for i, n in enumerate(pieces):
        # validation losses that get worse again: only the first n epochs count
        tail = ctx.draw(3, "wasted")
        table = down(n)[: n + 1] + [3.0] * (tail + 2)
        rec = world.Recorder()
        s.train(many, rec, table, epochs=n + tail, resume=i > 0, batch_rng=s.bseed + 17 * i,
                verbose=ctx.chance(1, 5, "verbose"), **kw)
        ctx.count("epochs", n + tail)
        if tail:
            ctx.fault("wasted-epochs", tail)
        done += n
        ctx.check(world.train_calls(many) == done * s.spe, "state", lambda: f"state counts {world.train_calls(many)} steps after {done} epochs")
        if i + 1 < len(pieces):
            many = between(ctx, fs, many, s, data, i)
        # bits of training in between must not matter for what was learnt
    a, b = flatp(one), flatp(many)
    ctx.ev("pieces", pieces, cmp.tdigest(a))
    compare(ctx, a, b, before, [lrs[i % positions] for i in range(total)], f"pieces {pieces}")
    d = cmp.diff(world.contents(one)["state"], world.contents(many)["state"])
    ctx.check(d is None, "state", lambda: f"state {d}")


def options(ctx, data):
    positions = ctx.between(1, 9, "positions")
    lrs = [ctx.pick((0.05, 0.1, 0.01, 0.2, 0.02), "lr") for _ in range(positions)]
    tab = jnp.asarray(np.asarray(lrs, np.float32))
    lr = (lambda i: tab[i % positions]) if positions > 1 else lrs[0]
    kw = dict(data=data, lr=lr, b1=ctx.pick((0.9, 0.5), "b1"), b2=ctx.pick((0.999, 0.9), "b2"),
              eps=ctx.pick((1e-2, 3e-2), "eps"), clip=ctx.pick((1e3, 0.2), "clip"))
    return positions, lrs, kw


def between(ctx, fs, many, s, data, i):
    """What happens to the model between two pieces of training."""
    how = ctx.weighted([("same", 3), ("restart", 4), ("compressed", 2), ("copy", 1), ("busy", 2)], "between")
    ctx.cover("between", how)
    if how in ("restart", "compressed"):
        # the process ends here; only the file survives
        path = fs.root + f"/piece{i}.npz"
        many.save(path) if how == "restart" else many.save_compressed(path)
        ctx.fault("process-restart")
        del many
        many = pmm.SequentialModel.from_file(path)
    elif how == "copy":
        many = many.copy()
    elif how == "busy":
        many(data["X_val"])
        other = s.model()
        s.train(other, world.Recorder(), down(1), data=data, epochs=1)
    return many


def compare(ctx, a, b, before, rates, what):
    scale = sum(rates)
    for j, (x, y) in enumerate(zip(a, b)):
        err = float(np.max(np.abs(x - y))) if x.size else 0.0
        tol = 0.01 * scale + 1e-4 * float(np.max(np.abs(x)) if x.size else 0.0)
        # never more than a fraction of the way this parameter went
        way = float(np.max(np.abs(x - before[j]))) if x.size else 0.0
        tol = min(tol, 0.05 * way + 1e-4)
        ctx.check(err <= tol, "pieces-differ",
                  lambda: f"{what} ended at {cmp.short(y)}, one go at {cmp.short(x)} (parameter {j}, rates {rates})")


def flatp(m):
    import jax

    return [np.asarray(x) for x in jax.tree.leaves(m.get_params())]
