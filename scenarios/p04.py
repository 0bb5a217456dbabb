"""Signals stop verbose training cleanly."""
import signal
import threading

import numpy as np

from sim import cmp, seams, world
from sim.setup import Scale, Setup, Ticks, best_index, gen_table

SIGS = (signal.SIGINT, signal.SIGTERM)


def run(ctx):
    s = Setup(ctx, opts={"pmm": False, "depth": 1, "tailflat": False}, max_n=6)
    clock = ctx.pick(("steady",) + seams.Clock.MODES, "clock")
    with seams.Env(ctx, clock=clock, seed=ctx.draw(50, "ambient")) as env:
        body(ctx, s, env)


def body(ctx, s, env):
    m, twin = s.model(), s.model()
    data = s.data()
    if ctx.chance(1, 3, "trained before"):
        E0 = ctx.between(1, 2, "epochs before")
        t0 = [2.0 - i / 64.0 for i in range(E0 + 2)]
        for x in (m, twin):
            s.train(x, world.Recorder(), t0, data=data, epochs=E0)
    resume = world.train_calls(m) > 0 and ctx.chance(1, 2, "resume")
    E = ctx.between(1, 6, "epochs")
    table = gen_table(ctx, E + 2, scale=Scale(ctx))
    patience = ctx.pick((100, 2), "patience")
    kw = dict(data=data, verbose=True, early_stopping_patience=patience, target_loss=-np.inf,
              early_stopping_min_delta=ctx.pick((-np.inf, 0.0), "delta"), resume=resume)

    # whatever handlers the caller has
    calls = []
    handlers = {}
    for sg in SIGS:
        kind = ctx.pick(("python", "default", "ignore"), "handler")
        h = {"python": (lambda n, f: calls.append(n)),
             "default": signal.default_int_handler if sg == signal.SIGINT else signal.SIG_DFL,
             "ignore": signal.SIG_IGN}[kind]
        signal.signal(sg, h)
        handlers[sg] = h
    per_epoch = 4 + 2 * s.spe
    at = [ctx.between(1, per_epoch * E, "when")]
    extra = ctx.weighted([(0, 5), (1, 5), (2, 1)], "more signals")
    for _ in range(extra):
        at.append(at[-1] + ctx.pick((0, 1, 2, 3, 5, 9), "gap"))
    which = [ctx.pick(SIGS, "signal") for _ in at]
    rec = world.Recorder()
    struck = []
    elsewhere = []

    base0 = world.train_calls(m)

    def strike(where, number):
        # the epochs that may be running, from the event's own number: the
        # order in which independent events of one epoch are seen is not fixed
        n = len(struck)
        seen = max([len(rec.cb)] + [(c - base0) // s.spe + 1 for c in rec.train])
        if where == "val":
            e = (number - base0) // s.spe
            allowed = (e,)
            if seen > e:
                # XLA may run the recording part of the first validation
                # after the loop: then training is where it is by now
                allowed = tuple(range(e, seen + 2))
        elif where == "train":
            allowed = ((number - base0) // s.spe + 1,)
        elif where == "cb":
            allowed = (len(rec.cb),)
        else:
            allowed = (len(rec.cb), len(rec.cb) + 1)
            allowed = tuple(a for a in allowed if a >= seen) or (seen,)
        if threading.current_thread() is not threading.main_thread():
            # Python runs handlers in the main thread only, some time later
            elsewhere.append(n)
        struck.append((where, allowed))
        ctx.fault("signal-" + str(int(which[n])) + "-" + where, allowed)
        signal.raise_signal(which[n])
        # give the interpreter the chance to run the handler here
        for _ in range(3):
            pass

    ticks = Ticks(rec, env.out, at, strike)
    before = world.observe(m, data["X_val"])
    ctx.ev("train", s.spec, s.n, s.bs, E, table, patience, resume, at, [int(x) for x in which])
    error = None
    try:
        base = s.train(m, rec, table, epochs=E, **kw)
    except BaseException as e:  # noqa: the kind of error is not specified
        error = e
    ticks.off()
    ctx.count("epochs", len(rec.cb))
    for sg in SIGS:
        now = signal.getsignal(sg)
        ctx.check(now is handlers[sg] or now == handlers[sg], "handlers-not-restored",
                  lambda: f"after training the handler of signal {int(sg)} is {now!r}, it was {handlers[sg]!r}")
    ctx.check(not calls, "caller-handler-called", lambda: f"the caller's handler ran during verbose training: {calls}")
    seams.default_signals()
    ctx.cover("struck", len(struck), struck[0][0] if struck else None, "error", error is not None)

    if elsewhere:
        ctx.cover("struck in another thread")
    if len(struck) >= 2 and not (elsewhere and error is None):
        ctx.check(error is not None, "second-signal-ignored",
                  lambda: f"signals at {struck} did not abort training")
        d = world.obs_diff(before, world.observe(m, data["X_val"]))
        ctx.check(d is None, "aborted-training-changed-model", lambda: f"after abort: {d}")
        ctx.ev("aborted", type(error).__name__)
        K = E
        # and training can simply be started again
        rec = world.Recorder()
        s.train(m, rec, table, epochs=E, **kw)
    else:
        if error is not None:
            raise error
        K = len(rec.cb)
        if struck and not elsewhere:
            where, allowed = struck[0]
            ctx.check(K in allowed, "wrong-epochs-after-signal",
                      lambda: f"signal during {where} of epoch {allowed}: {K} epochs were run")
        ctx.ev("epochs", K)
    rec2 = world.Recorder()
    s.train(twin, rec2, table, epochs=K, **kw)
    ctx.check(len(rec2.cb) == len(rec.cb), "twin-epochs", lambda: f"{len(rec.cb)} epochs, uninterrupted training runs {len(rec2.cb)}")
    compare(ctx, s, m, twin, data, "result")
    # the optimizer memory shows when training goes on
    if ctx.chance(1, 2, "go on"):
        t2 = [1.0, 0.5, 0.25]
        for x in (m, twin):
            s.train(x, world.Recorder(), t2, data=data, epochs=1, resume=True, batch_rng=99)
        compare(ctx, s, m, twin, data, "continuation")


def compare(ctx, s, m, twin, data, what):
    a, b = world.contents(m), world.contents(twin)
    d = cmp.diff(a["state"], b["state"]) or cmp.diff(a["rng"], b["rng"])
    ctx.check(d is None, "differs-from-uninterrupted", lambda: f"{what}: {d}")
    d = cmp.diff(a["params"], b["params"], rtol=1e-3, atol=1e-6)
    ctx.check(d is None, "differs-from-uninterrupted", lambda: f"{what}: parameters {d}")
