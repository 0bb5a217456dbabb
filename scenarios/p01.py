"""Training hands back the best validated point."""
import signal

import numpy as np
import jax.numpy as jnp

from sim import cmp, seams, world
from sim.setup import Scale, Setup, Ticks, best_index, flat, gen_table, same_params


def run(ctx):
    s = Setup(ctx, opts={"complex": True, "depth": 2})
    clock = ctx.pick(("steady",) + seams.Clock.MODES, "clock")
    with seams.Env(ctx, clock=clock, seed=ctx.draw(50, "ambient")) as env:
        m = s.model()
        data = s.data()
        for phase in range(1 + (1 if ctx.chance(1, 4, "again") else 0)):
            one(ctx, s, env, m, data, phase)


def one(ctx, s, env, m, data, phase):
    real = ctx.chance(1, 4, "real loss")
    E = ctx.between(0, 10, "epochs")
    scale = Scale(ctx)
    table = None if real else gen_table(ctx, 12, scale=scale)
    patience = ctx.pick((100, 100, 1, 2, 3), "patience")
    delta = ctx.pick((-np.inf, 0.0, scale.delta(1), scale.delta(4)), "delta")
    target = -np.inf
    if not real and ctx.chance(1, 4, "target"):
        target = scale.loss(ctx.pick((32, 48, 64, 80), "target"))
    verbose = ctx.chance(1, 3, "verbose")
    edit = ctx.pick((None, "scale", "add", "zero", "nan"), "edit")
    if edit in ("nan", "zero") and world.has_complex(s.spec):
        # degenerate matrices have no gradient, and matrices that are not
        # numbers are rejected as not Hermitian
        edit = "scale"
    edit_from = ctx.draw(4, "edit from")
    resume = phase > 0 and ctx.chance(1, 2, "resume")
    sig_at = ctx.between(1, 30, "signal at") if verbose and ctx.chance(1, 3, "signal") else None

    def callback(rng, epoch, params):
        if edit is None:
            return rng, params
        on = epoch >= edit_from
        f = {
            "scale": lambda p: p * 0.5,
            "add": lambda p: p + jnp.asarray(0.125, p.dtype),
            "zero": lambda p: p * 0,
            "nan": lambda p: p * jnp.asarray(np.nan, p.dtype),
        }[edit]
        return rng, [jnp.where(on, f(p), p).astype(p.dtype) for p in params]

    start = world.contents(m)
    rec = world.Recorder()

    def strike(where, number):
        ctx.fault("signal", where)
        signal.raise_signal(signal.SIGINT)

    ticks = Ticks(rec, env.out, [sig_at] if sig_at else [], strike)
    ctx.ev("train", phase, s.spec, s.n, s.bs, E, table, patience, delta, target, edit, resume, sig_at)
    base = s.train(
        m, rec, table, real=real, callback=callback, data=data, epochs=E,
        early_stopping_patience=patience, early_stopping_min_delta=float(delta),
        target_loss=target, verbose=verbose, resume=resume,
    )
    ticks.off()
    K = len(rec.cb)
    ctx.count("epochs", K)
    ctx.check(sorted(rec.cb) == list(range(K)), "epoch-numbers",
              lambda: f"the callback saw epochs {sorted(rec.cb)}")
    ctx.check(all(len(v) == 1 for v in rec.cb.values()), "callback-calls", "the callback ran more than once in an epoch")
    points = [flat(start["params"])] + [rec.cb[e][0] for e in range(K)]
    after = world.contents(m)
    now = flat(after["params"])
    ctx.ev("ended after", K, cmp.tdigest(now))

    if real:
        # the losses as anybody can compute them from the points themselves
        twin = s.model()
        losses = []
        for i, p in enumerate(points):
            losses.append(true_loss(s, twin, p, base + i * s.spe, data, start))
        ctx.ev("losses", [round(float(x), 3) for x in losses])
        if s.noisy or not s.even_val:
            # the random key or the order of the samples enters the loss: only
            # membership is decided
            cands = range(len(points))
        else:
            finite = [x for x in losses if np.isfinite(x)]
            lo = min(finite) if finite else np.inf
            cands = [i for i, x in enumerate(losses) if x <= lo + 1e-4 * (abs(lo) + 1e-3)]
            if not np.isfinite(losses[0]):
                return
        hit = [i for i in range(len(points)) if same_params(points[i], now) is None]
        ctx.check(any(i in cands for i in hit), "not-the-best",
                  lambda: f"losses {losses}: the returned parameters are those of point {hit}, not of {list(cands)}")
        # which of several equal points it is shows in the state
        st = world.train_calls(m)
        ctx.check(st in [base + i * s.spe for i in hit], "state-of-another-point",
                  lambda: f"state counts {st - base} steps, parameters are those of point {hit} with {s.spe} steps per epoch")
        b = (st - base) // s.spe
    else:
        b = best_index(table, K)
        ctx.cover("best", "start" if b == 0 else "last" if b == K else "middle", "K", min(K, 3))
        d = same_params(points[b], now)
        ctx.check(d is None, "not-the-best",
                  lambda: f"losses {table[:K+1]}: the returned parameters are not those of point {b}: {d}")
        st = world.train_calls(m)
        ctx.check(st == base + b * s.spe, "state-of-another-point",
                  lambda: f"state counts {st - base} training steps, expected {b * s.spe} (point {b})")
    # the random key: evaluating now must draw what validating that point drew
    drawn = {u for u, _ in rec.val.get(base + b * s.spe, [])}
    ctx.check(len(drawn) == 1, "validation-missing", lambda: f"point {b} was validated with {len(drawn)} keys")
    u = float(np.asarray(m(data["X_val"]))[0, -1])
    ctx.check(abs(u - next(iter(drawn))) < 1e-7, "key-of-another-point",
              lambda: f"point {b} was validated with draw {drawn}, the model now draws {u}")


def true_loss(s, twin, params, calls, data, start):
    import jax

    if not all(np.all(np.isfinite(p)) for p in params):
        return float("nan")
    twin.set_params(jax.tree.unflatten(jax.tree.structure(start["params"]), [jnp.asarray(p) for p in params]))
    # only compared when all validation batches are equally large, so that the
    # mean over batches is the mean over samples
    pred = twin(data["X_val"], dtype=np.float32)
    return float(world.sqerr(data.get("Y_val"), data.get("Y_val_unc"), pred))
