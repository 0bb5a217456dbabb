"""Only the latest calibration or fit counts."""
import numpy as np
import jax
import jax.numpy as jnp

from sim import cmp, files, inject, objects, seams, simmods, world
from scenarios.p11 import copy_contents
from scenarios.p10 import attempt, boom

TOL = 1e-6


def run(ctx):
    with seams.Env(ctx, seed=ctx.draw(50, "ambient")) as env:
        if ctx.chance(1, 2, "scaler"):
            scaler_run(ctx, env)
        else:
            conformal_run(ctx, env)


# ----------------------------------------------------------------- scalers
def vary(ctx, spec, kind, X):
    """Data of a special kind."""
    v = ctx.pick(("plain", "plain", "constant column", "large", "one value"), "data")
    if spec[0] in ("onehot", "mixed") or v == "plain":
        return X
    if v == "large":
        return jax.tree.map(lambda a: a * 1000.0 + 500.0, X)
    if v == "constant column":
        return jax.tree.map(lambda a: a.at[:, :1].set(2.0), X)
    return jax.tree.map(lambda a: jnp.ones_like(a), X)


def scaler_run(ctx, env):
    spec, kind = objects.gen_scaler(ctx)
    kinds = [kind]
    if spec[0] == "standard":
        kinds = ["array", "array2", "list", "dict"]
    elif spec[0] in ("minmax", "robust"):
        kinds = ["array", "array2"] if spec[0] == "minmax" else ["array"]
    fs = env.files()
    s = objects.make_scaler(spec)
    last = None  # (data, kind) that the scaler is fitted to
    ctx.ev("scaler", spec)

    def fresh(X):
        t = objects.make_scaler(spec)
        t.fit(X)
        return t

    def probe(kd):
        return objects.scaler_data(spec, kd, 4, 3, salt=999)

    def same(s, last, what, other=None):
        X, kd = last
        P = probe(kd)
        got = objects.observe_scaler(s, P)
        ds = [objects.sdiff(objects.observe_scaler(fresh(X), P), got)]
        if other is not None and other[1] == kd:
            ds.append(objects.sdiff(objects.observe_scaler(fresh(other[0]), P), got))
        ctx.check(None in ds, "differs-from-fresh-fit", lambda: f"{spec} after {what}: {ds[0]}")
        ctx.count("checks")
        return ds.index(None)

    for i in range(ctx.between(2, 8, "operations")):
        op = ctx.weighted([("fit", 5), ("query", 3), ("failed", 4), ("reload", 1)], "op")
        kd = ctx.pick(kinds, "data kind")
        n = ctx.between(2, 9, "rows")
        X = vary(ctx, spec, kd, objects.scaler_data(spec, kd, n, ctx.draw(50, "data"), salt=i))
        ctx.ev(i, op, kd, n)
        ctx.count("operations")
        ctx.cover("scaler", spec[0], op)
        if op == "fit":
            if ctx.chance(1, 3, "fit_transform"):
                got = s.fit_transform(X)
                d = cmp.diff(cmp.freeze(fresh(X).transform(X)), cmp.freeze(got))
                ctx.check(d is None, "differs-from-fresh-fit", lambda: f"{spec} fit_transform: {d}")
            else:
                s.fit(X)
            last = (X, kd)
            same(s, last, "fitting")
        elif op == "query" and last is not None:
            P = probe(last[1])
            T = s.transform(P)
            if ctx.chance(1, 2, "back"):
                s.inverse_transform(T)
            s.serialize()
            same(s, last, "queries")
        elif op == "reload" and last is not None:
            p = fs.root + f"/s{i}.npz"
            s.save(p)
            s = type(s).load(p)
            same(s, last, "loading")
        elif op == "failed":
            how = ctx.weighted([("line", 4), ("empty", 2), ("structure", 1), ("type", 1)], "failure")
            exc = boom(ctx)
            if how == "line":
                with inject.Lines(ctx.between(1, ctx.pick((6, 30), "far"), "line"), exc) as ln:
                    err = attempt(lambda: s.fit(X))
                if ln.where is None:
                    if err is not None:
                        raise err
                    last = (X, kd)
                    continue
                ctx.fault("exception-at-line")
            else:
                if how == "empty":
                    bad = jax.tree.map(lambda a: a[:0], X)
                    if spec[0] == "mixed" and ctx.chance(1, 2, "one feature"):
                        bad = dict(X, q=bad["q"])
                elif how == "structure":
                    bad = [X, X]
                    if spec[0] == "standard":
                        continue
                else:
                    bad = jax.tree.map(lambda a: "text", X)
                    if spec[0] == "mixed":
                        bad = dict(X, q=bad["q"])
                err = attempt(lambda: s.fit(bad))
                if err is None:
                    # that counts as data to some scalers
                    s.fit(X)
                    last = (X, kd)
                    continue
                ctx.fault("bad-data-" + how)
            if last is None:
                # nothing fitted before: it must not look fitted, unless it is
                P = probe(kd)
                if attempt(lambda: s.transform(P)) is None and spec[0] != "mixed":
                    if how == "line":
                        last = (X, kd)
                        same(s, last, f"a failed fit ({how})")
                    else:
                        ctx.fail("failed-fit-left-traces", f"{spec} transforms after its only fit failed ({how})")
            else:
                P = probe(last[1])
                err = attempt(lambda: s.transform(P))
                if err is not None and not (how == "line" and kd != last[1]):
                    raise err
                if err is None:
                    if same(s, last, f"a failed fit ({how})", other=(X, kd) if how == "line" else None) == 1:
                        last = (X, kd)
                else:
                    # completed before it failed
                    last = (X, kd)
                    same(s, last, "a failed fit")
    if last is not None:
        same(s, last, "all")


# --------------------------------------------------------------- conformal
def conformal_run(ctx, env):
    cf = objects.Conf(ctx, faulty=True)
    cm = cf.new()
    fs = env.files()
    last = None
    ctx.ev("conformal", cf.spec, cf.alpha, cf.nnq)

    def fresh(o):
        t = cf.new()
        copy_contents(cm.model, t.model)
        cf.calibrate(t, o)
        return t

    def same(what, other=None):
        got = cf.observe(cm)
        d = objects.cdiff(cf.observe(fresh(last)), got, rtol=TOL)
        if d is not None and other is not None and objects.cdiff(cf.observe(fresh(other)), got, rtol=TOL) is None:
            return True
        ctx.check(d is None, "differs-from-fresh-calibration", lambda: f"after {what}: {d}")
        ctx.count("checks")
        return False

    for i in range(ctx.between(2, 5, "operations")):
        op = ctx.weighted([("calibrate", 5), ("query", 3), ("failed", 3), ("model", 2), ("reload", 1)], "op")
        ctx.ev(i, op)
        ctx.count("operations")
        ctx.cover("conformal", op, "calibrated" if last else "")
        if op == "calibrate":
            o = cf.gen_calibration()
            ctx.ev(o)
            if objects.try_calibrate(cf, cm, o):
                last = o
        elif op == "query" and last is not None:
            for _ in range(ctx.between(1, 3, "queries")):
                query(ctx, cf, cm)
        elif op == "model":
            # the model underneath changes; calibrate anew
            f = ctx.pick((0.5, 1.5), "factor")
            cm.model.set_params(jax.tree.map(lambda a: (a * f).astype(a.dtype), cm.model.get_params()))
            o = cf.gen_calibration()
            ctx.ev(o)
            if not objects.try_calibrate(cf, cm, o):
                # go back
                cm.model.set_params(jax.tree.map(lambda a: (a / f).astype(a.dtype), cm.model.get_params()))
                continue
            last = o
        elif op == "reload" and last is not None:
            p = fs.root + f"/c{i}.npz"
            cm.save(p)
            cm = objects.CM.from_file(p)
        elif op == "failed":
            o = cf.gen_calibration()
            if not refused(cf, cm, o):
                continue
            how, done = fail(ctx, cf, cm, o)
            if how is None:
                last = o
                continue
            if last is None:
                err = attempt(lambda: cm.get_qhat())
                if err is None:
                    ctx.check(done, "failed-calibration-left-traces", lambda: f"calibrated although the only calibration failed ({how})")
                    last = o
                    same(f"failed calibration ({how})")
            elif same(f"failed calibration ({how})", other=o if done else None):
                last = o
    if last is not None:
        if ctx.chance(1, 2, "queries at the end"):
            for _ in range(ctx.between(1, 4, "queries")):
                query(ctx, cf, cm)
        same("all")


def refused(cf, cm, o):
    """False where a fresh object refuses these options."""
    t = cf.new()
    copy_contents(cm.model, t.model)
    return objects.try_calibrate(cf, t, o)


def query(ctx, cf, cm):
    """Ask for something."""
    k = ctx.draw(5, "query")
    al = ctx.pick((0.5, 0.2, 0.4, 0.1, 0.9, 0.498, 0.502, 0.199, 0.401, 0.4001, 0.49999), "alpha")
    X = cf.x(ctx.between(1, 5, "rows"), 300 + ctx.draw(9, "input"))
    if k == 0:
        cm.get_qhat(al)
    elif k == 1:
        cm.get_qhat([al, 0.3])
    elif k == 2:
        cm(X, alpha=al)
    elif k == 3:
        cm(X, alpha=[0.2, al])
    else:
        cm.uncertainty_heuristic(X)
    ctx.cover("query", k)


def fail(ctx, cf, cm, o):
    """A calibration that fails: (how, might be complete)."""
    kind = ctx.weighted([("line", 4), ("point", 2), ("data", 3)], "failure")
    exc = boom(ctx)
    if kind == "line":
        at = ctx.between(1, 900, "line")
        with inject.Lines(at, exc) as ln:
            err = attempt(lambda: cf.calibrate(cm, o))
        if ln.where is None:
            if err is not None:
                raise err
            return None, True
        ctx.fault("exception-at-line")
        return ln.where, True
    if kind == "point":
        simmods.FIRED.clear()
        simmods.FAULTS[ctx.pick(("echo.trace", "echo.get_callable", "echo.get_state"), "point")] = [ctx.draw(3, "skip"), exc]
        err = attempt(lambda: cf.calibrate(cm, o))
        fired = bool(simmods.FIRED)
        simmods.FAULTS.clear()
        if not fired:
            if err is not None:
                raise err
            return None, True
        ctx.fault("user-code-fails")
        return kind, False
    X, Y, kw = cf.kwargs(o)
    b = ctx.draw(4, "bad data")
    if b == 0:
        Y = Y[:-1]
    elif b == 1:
        X = jax.tree.map(lambda a: jnp.concatenate([a, a], axis=-1), X)
    elif b == 2:
        kw["X_train"] = jax.tree.map(lambda a: jnp.concatenate([a, a], axis=-1), X)
    else:
        kw["continuous_features"] = [True, True, True]
    err = attempt(lambda: cm.calibrate(X, Y, **kw))
    ctx.check(err is not None, "bad-data-accepted", lambda: f"bad data {b} accepted")
    ctx.fault("bad-data")
    return f"bad data {b}", False
