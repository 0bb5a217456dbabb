"""Concurrent callers do not disturb each other."""
import numpy as np
import jax
import jax.numpy as jnp
import jaxtyping

import parametricmatrixmodels as pmm
from sim import cmp, objects, seams, simmods, threads, world
from sim.setup import Setup
from scenarios.p11 import options

TOL = dict(rtol=2e-5, atol=2e-6)


def run(ctx):
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        body(ctx, env)


class Shared:
    """A model used by several threads."""

    def __init__(self, ctx, hot=False):
        self.hot = hot
        if hot:
            # small and quick, made to be used by all threads at once
            self.s = Hot(ctx)
            self.spec = self.s.spec
            self.mseed = ctx.draw(50, "seed")
            self.grads = self.grads_in = True
            self.m = self.new()
            return
        self.s = Setup(ctx, opts={"depth": 1, "pmm": ctx.chance(1, 6, "pmm")}, max_n=4, echo_noise=False, allow_unsup=False)
        self.spec = self.s.spec
        if ctx.chance(2, 3, "noise"):
            # noise that shows how the input was split into batches
            self.spec = [self.spec[0], self.spec[1], self.spec[2] + [["echo", {"tag": -1, "noise": 0.5, "append": False}]]]
        self.mseed = ctx.draw(50, "seed")
        self.grads = not world.has_complex(self.spec)
        self.grads_in = self.grads and (self.s.xkind == "array" or self.s.w == 2)
        self.m = self.new()

    def new(self):
        m = world.build(self.spec, rng=self.mseed)
        m.compile(self.mseed + 1, world.shape_of(self.s.x(1, 0)))
        return m

    def x(self, n, seed):
        return world.make_x(self.s.xkind, n, self.s.w, seed)


class Hot:
    xkind = "array"
    w = 2

    def __init__(self, ctx):
        # noise shows in outputs and, before something that is not linear, in
        # gradients how the input was split into batches
        end = ["echo", {"tag": -1, "noise": 0.5}]
        noisy = ["echo", {"tag": -1, "noise": 0.5, "append": False}]
        self.shape = ctx.pick(("list", "branches", "nested"), "shape")
        if self.shape == "list":
            self.spec = ["seq", "list", [["scale"], noisy, ["linear", 1], ["act", 0], end]]
        elif self.shape == "branches":
            self.spec = ["nonseq", {"a": ["scale"], "b": ["linear", 2], "m": ["merge"], "n": noisy, "s": ["act", 0], "z": end},
                         {"input": ["a", "b"], "a": "m.0", "b": "m.1", "m": "n", "n": "s", "s": "z", "z": "output"}]
        else:
            inner = ["nonseq", {"a": ["scale"], "m": ["merge"]}, {"input": ["a", "m.1"], "a": "m.0", "m": "output"}]
            self.spec = ["seq", "dict", [inner, ["seq", "tuple", [["linear", 1], noisy, ["act", 0], end]]]]
        ctx.cover("shape", self.shape)
        self.draw_what(ctx)

    def draw_what(self, ctx):
        self.what = ctx.pick(("predict", "grad_input", "grad_params"), "evaluation")

    def x(self, n, salt):
        return world.make_x("array", n, 2, salt)

    def y(self, n, salt):
        return self.x(n, salt)[:, :1]


def gen_job(ctx, models):
    """One evaluation: (model number, method, rows, input seed, options)."""
    if models[0].hot:
        s = models[0].s
        kw = {"max_batch_size": ctx.pick((None, 1, 2, 3), "max batch")}
        if ctx.chance(1, 4, "avoid recompilation"):
            kw["avoid_recompilation"] = True
        if ctx.chance(1, 3, "key"):
            kw["rng"] = ctx.draw(20, "key")
        if s.what != "predict" and ctx.chance(1, 3, "mode"):
            kw["fwd"] = ctx.chance(1, 2, "fwd")
        if ctx.chance(1, 3, "state"):
            kw["return_state"] = True
        return 0, s.what, ctx.pick((4, 4, 2), "rows"), ctx.draw(50, "input"), kw
    i = ctx.draw(len(models), "model")
    h = models[i]
    kinds = ["predict", "predict"]
    if h.grads_in:
        kinds.append("grad_input")
    if h.grads:
        kinds.append("grad_params")
    what = ctx.pick(kinds, "evaluation")
    n = ctx.between(1, 5, "rows")
    kw = options(ctx, n, grad=what != "predict")
    kw.pop("verbose", None)
    if ctx.chance(1, 3, "state"):
        kw["return_state"] = True
    return i, what, n, ctx.draw(50, "input"), kw


def do_job(h, m, job):
    _, what, n, seed, kw = job
    out = getattr(m, what)(h.x(n, seed), **kw)
    return cmp.freeze(jax.block_until_ready(out))


def body(ctx, env):
    fs = env.files()
    kind = ctx.cycle([("eager", 9), ("hot", 2), ("plain", 2), ("conformal", 1), ("training", 1)], "kind")
    hot = kind in ("hot", "eager")
    ctx.cover("kind", kind)
    alone_on = {}
    models = [Shared(ctx, hot) for _ in range(1 if hot else ctx.between(1, 2, "models"))]
    if kind != "eager":
        return one(ctx, fs, kind, models, alone_on)
    # many short histories: JAX runs operation by operation, so that nothing
    # has to be compiled again when options change
    jax.config.update("jax_disable_jit", True)
    # the checks of annotations take most of the time then
    checked = ctx.chance(1, 6, "annotations checked")
    jaxtyping.config.update("jaxtyping_disable", not checked)
    try:
        for _ in range(ctx.between(8, 24, "rounds")):
            one(ctx, fs, kind, models, alone_on)
            if len(ctx.choices) > 2500:
                break
            if ctx.chance(1, 2, "new model"):
                models[0].m = models[0].new()
            if ctx.chance(1, 12, "other evaluation"):
                models[0].s.draw_what(ctx)
    finally:
        jax.config.update("jax_disable_jit", False)
        jaxtyping.config.update("jaxtyping_disable", False)


def one(ctx, fs, kind, models, alone_on):
    hot = models[0].hot
    n = ctx.weighted([(2, 3), (3, 1)], "threads") if kind == "eager" else ctx.between(2, 4, "threads")
    conf = kind == "conformal"
    trainer = kind == "training"
    cf = cm = None
    plans, want = [], []
    deep = ctx.chance(1, 8, "deep") if kind == "eager" else ctx.chance(2, 5, "deep")
    # at which lines threads are stopped: the library's lines are gathered
    # from what each evaluation runs alone
    stops = kind == "eager" and ctx.chance(3, 4, "stops")
    what = hot and models[0].s.what
    lines = alone_on.setdefault(("lines", deep, what), {})
    tried = alone_on.setdefault(("tried", deep, what), set())
    if conf:
        cf = objects.Conf(ctx)
        o = cf.gen_calibration()
        cm, alone = cf.new(), cf.new()
        if not objects.try_calibrate(cf, cm, o):
            return
        cf.calibrate(alone, o)
    for t in range(n):
        if conf:
            jobs = [(ctx.between(1, 4, "rows"), ctx.draw(50, "input"), ctx.pick((None, 0.3, 0.5, 0.7), "alpha")) for _ in range(ctx.between(1, 2, "jobs"))]
            fresh = []
            for rows, seed, al in jobs:
                fresh.append(conf_job(cf, alone, rows, seed, al))
            plans.append(("conf", jobs))
            want.append(fresh)
            continue
        if trainer and t == 0:
            E = ctx.between(1, 2, "epochs")
            plans.append(("train", E))
            h = models[-1]
            m = h.new()
            train(h, m, E)
            want.append(world.observe(m, h.x(2, 1)))
            continue
        mine = models[:-1] if (trainer and len(models) > 1) else models
        if trainer and len(models) == 1:
            mine = [Shared(ctx)]
            models.insert(0, mine[0])
            mine = models[:1]
        if kind == "eager":
            pool = alone_on.setdefault(("pool", mine[0].s.what), [])
            while len(pool) < 3:
                j = gen_job(ctx, mine)
                if all(j[4] != k[4] for k in pool):
                    pool.append(j)
            # each thread another one
            k = alone_on["next"] = alone_on.get("next", 0) + 1
            jobs = [pool[(k + i) % 3] for i in range(ctx.weighted([(1, 3), (2, 1)], "jobs"))]
        else:
            jobs = [gen_job(ctx, mine) for _ in range(ctx.between(1, 3, "jobs"))]
        own = kind != "eager" and ctx.chance(1, 4, "own model")
        plans.append(("own" if own else "eval", jobs))
        fresh = []
        for j in jobs:
            h = mine[j[0]]
            # alone, on a model of its own
            if id(h) not in alone_on:
                alone_on[id(h)] = h.new(), h
            key = str(j)
            if kind != "eager" or key not in alone_on:
                if stops:
                    with threads.Lines(deep, lines):
                        alone_on[key] = do_job(h, alone_on[id(h)][0], j)
                else:
                    alone_on[key] = do_job(h, alone_on[id(h)][0], j)
            fresh.append(alone_on[key])
        want.append(fresh)
    if ctx.chance(1, 3, "warm") and not conf:
        # some caches are filled already
        j = plans[0][1][0] if kind == "eager" else gen_job(ctx, models[:1])
        do_job(models[0], models[0].m, j)
    before = [world.contents(h.m) for h in models]
    ctx.ev("plans", [(p[0], str(p[1])) for p in plans])
    rate = None if stops and lines else ctx.pick((25, 50, 100) if deep else (12, 3, 6, 25), "rate")
    sched = threads.Sched(ctx, rate, deep)
    trained = {}

    def client(i, plan):
        def go(t):
            kind, jobs = plan
            out = []
            if kind == "train":
                h = models[-1]
                m = h.new()
                train(h, m, jobs)
                return world.observe(m, h.x(2, 1))
            for k, j in enumerate(jobs):
                if kind == "conf":
                    out.append(conf_job(cf, cm, *j))
                else:
                    h = models[j[0]]
                    if kind == "own":
                        m = h.new()
                        p = fs.root + f"/t{i}-{k}.npz"
                        m.save(p)
                        m = type(m).from_file(p)
                    else:
                        m = h.m
                    out.append(do_job(h, m, j))
                sched.point(t, None)
            return out

        return go

    for i, p in enumerate(plans):
        t = sched.add(client(i, p))
        if rate is None:
            for _ in range(ctx.weighted([(1, 5), (2, 1)] if i == 0 else [(0, 3), (1, 2)], "stops")):
                # the lines of what a user calls, or any, each of them once;
                # often just after something was stored
                level = ctx.weighted([("after", 3), (1, 3), (2, 1), (99, 1)], "level")
                known = sorted(k for k, (d, after) in lines.items() if (after if level == "after" else d <= level))
                known = known or sorted(lines)
                new = [k for k in known if k not in tried] or known
                at = new[ctx.draw(len(new), "stop at")]
                tried.add(at)
                t.stops[at] = ctx.weighted([(0, 4), (1, 1)], "arrival")
    victim = None
    if ctx.chance(1, 4, "one dies"):
        victim = ctx.draw(n, "victim")
        sched.threads[victim].die_at = ctx.between(1, 80, "dies at")
    ok = sched.run()
    ctx.check(ok, "stuck", "the threads do not finish")
    ctx.count("switches", sched.switches)
    if deep:
        ctx.cover("deep", sched.blocked > 0, sched.free)
        ctx.count("lock waits", sched.blocked)
    ctx.cover("switched in", *sorted(sched.places)[:3])
    for pl in sched.places:
        ctx.cover("switch", pl)
    ctx.cover("threads", n, "conf" if conf else "train" if trainer else "eval")
    ctx.ev("switches", sched.switches)
    for i, t in enumerate(sched.threads):
        if isinstance(t.error, threads.Killed):
            ctx.fault("thread-killed", t.lines)
            continue
        if t.error is not None:
            ctx.fail("thread-failed", f"thread {i} ({plans[i][0]} {str(plans[i][1])[:200]}): {type(t.error).__name__}: {str(t.error)[:300]}")
        compare(ctx, i, plans[i], t.result, want[i])
    ctx.fault("preemption", sched.switches)
    for h, b in zip(models, before):
        d = cmp.diff(b, world.contents(h.m))
        ctx.check(d is None, "model-changed", lambda: f"evaluating changed a model: {d}")
    # and afterwards everything still works
    for plan, res in zip(plans, want):
        if plan[0] == "eval" and (victim is not None or ctx.chance(1, 3, "afterwards")):
            j = plan[1][-1]
            d = cmp.diff(do_job(models[j[0]], models[j[0]].m, j), res[-1], dtypes=False, **TOL)
            ctx.check(d is None, "differs-afterwards", lambda: f"{j}: {d}")
    ctx.count("checks", n)


def conf_job(cf, cm, rows, seed, al):
    X = cf.x(rows, seed)
    y, iv = cm(X) if al is None else cm(X, alpha=al)
    return cmp.freeze([y, iv, cm.get_qhat() if al is None else cm.get_qhat(al)])


def train(h, m, E):
    X, Y = h.s.x(3, 0), h.s.y(3, 2)

    def loss(epoch, X, Y, pred):
        return world.sqerr(Y, None, pred)

    m.train(X, Y, X_val=X, Y_val=Y, loss_fn=loss, epochs=E, batch_size=2, batch_rng=3, lr=0.05, verbose=False)


def compare(ctx, i, plan, got, want):
    if plan[0] == "train":
        d = world.obs_diff(want, got, rtol=1e-4)
        ctx.check(d is None, "training-differs", lambda: f"training in thread {i}: {d}")
        return
    for k, (a, b) in enumerate(zip(got, want)):
        d = cmp.diff(a, b, dtypes=False, **TOL)
        ctx.check(d is None, "result-differs", lambda: f"thread {i} {plan[0]} {str(plan[1][k])[:200]}: {d}")
