"""Training stops exactly when its rules say."""
import numpy as np

from sim import seams, world
from sim.core import Violation
from sim.setup import NAN, INF, Scale, Setup


class Runaway(Exception):
    pass


def script(ctx, n, scale):
    """Validation losses on a grid, rich in ties and near misses."""
    style = ctx.pick(("mixed", "slow", "stall", "comeback", "staircase"), "script")
    v = 64 + ctx.draw(32, "start")
    out = [v]
    best = v
    for i in range(n - 1):
        if style == "mixed":
            v = v + ctx.draw(7, "d") - 3
        elif style == "slow":
            v = best - ctx.pick((1, 0, 2), "d")
        elif style == "stall":
            v = best + ctx.pick((0, 1, 2, -1), "d")
        elif style == "comeback":
            v = best + 3 - ctx.draw(8, "d")
        else:
            v = best - (ctx.draw(6, "step") if i % 3 == 2 else -(i % 2))
        s = ctx.weighted([(0, 40), (NAN, 2), (INF, 1), (-INF, 1)], "special") if ctx.chance(1, 6, "odd") else 0
        if s == 0:
            out.append(v)
            best = min(best, v)
        else:
            out.append(s)
    ctx.cover("script", style)
    return [scale.loss(x) for x in out]


def reference(L, E, target, patience, delta):
    best, left, e = L[0], patience, 0
    cause = None
    while True:
        if best <= target:
            cause = "target"
        elif left <= 0:
            cause = "patience"
        elif e >= E:
            cause = "epochs"
        if cause:
            return e, cause, best
        e += 1
        v = L[e]
        left = patience if v <= best - delta else left - 1
        if v < best:
            best = v


def run(ctx):
    s = Setup(ctx, opts={"nested": False, "pmm": False, "depth": 1, "tailflat": False}, max_n=5)
    env = seams.Env(ctx, clock=ctx.pick(("steady",) + seams.Clock.MODES, "clock"), seed=ctx.draw(50, "ambient"))
    with env:
        m = s.model()
        data = s.data()
        for phase in range(1 + ctx.draw(2, "again")):
            E = ctx.pick((8, 0, 1, 2, 3, 5, 12, 20, 30), "epochs")
            scale = Scale(ctx)
            L = script(ctx, E + 3, scale)
            patience = ctx.pick((100, 1, 2, 3, 4, 6), "patience")
            delta = ctx.pick((-INF,) + tuple(scale.delta(d) for d in (0, 1, 2, 4, -2)), "delta")
            target = -INF
            if ctx.chance(1, 3, "target"):
                num = [x for x in L if np.isfinite(x)]
                target = num[ctx.draw(len(num), "which")] + scale.delta(ctx.pick((0, 1, -1), "off"))
            verbose = ctx.chance(1, 5, "verbose")
            want, cause, _ = reference(L, E, target, patience, delta)
            ctx.cover("cause", cause, "after", min(want, 4))
            ctx.ev("train", E, L, patience, delta, target, "expect", want, cause)
            rec = world.Recorder()
            limit = (E + 4) * s.spe

            def hook(where, n):
                if len(rec.cb) > E + 2 or len(rec.train) > limit:
                    raise Runaway()

            rec.hook = hook
            try:
                s.train(
                    m, rec, L, data=data, epochs=E, target_loss=float(target),
                    early_stopping_patience=patience, early_stopping_min_delta=float(delta),
                    verbose=verbose, resume=phase > 0 and ctx.chance(1, 2, "resume"),
                )
            except Exception as e:
                if len(rec.cb) > E + 2 or len(rec.train) > limit:
                    ctx.fail("never-ends", f"{len(rec.cb)} epochs and {len(rec.train)} steps run, {E} epochs requested")
                raise
            got = len(rec.cb)
            ctx.count("epochs", got)
            ctx.ev("epochs", got)
            ctx.check(got == want, "wrong-number-of-epochs",
                      lambda: f"{got} epochs instead of {want} ({cause}); losses {L[:max(got, want)+1]}, limit {E}, patience {patience}, delta {delta}, target {target}")
            steps = sum(len(v) for v in rec.train.values())
            ctx.check(steps == want * s.spe, "wrong-number-of-steps",
                      lambda: f"{steps} training steps for {want} epochs of {s.spe}")
            ctx.check(len(rec.val) == want + 1, "wrong-number-of-validations",
                      lambda: f"{len(rec.val)} points validated, expected {want + 1}")
