"""Every update is the documented optimizer step."""
import jax
import jax.numpy as jnp
import numpy as np

from sim import cmp, seams, world
from sim.setup import Setup
from sim.simmods import mix_forward


def run(ctx):
    nmods = ctx.between(1, 2, "modules")
    cplx = [ctx.chance(1, 3, "complex") for _ in range(nmods)]
    mid = ctx.between(1, 2, "middle")
    nest = ctx.draw(3, "nesting")

    def spec(s, heads):
        widths = [mid] * (nmods - 1) + [s.k]
        mixes = [["mix", k, c] for k, c in zip(widths, cplx)]
        if nest == 1:
            mixes = mixes[:-1] + [["seq", "dict", [mixes[-1]]]]
        elif nest == 2:
            mixes = [["seq", "list", mixes]]
        return ["seq", ctx.pick(("list", "tuple", "dict"), "container"), heads + mixes + [["echo", {"tag": 0}]]]

    s = Setup(ctx, spec=spec, echo_noise=False, max_n=7)
    if any(cplx):
        s.fwd = False
    b1 = ctx.pick((0.9, 0.5, 0.0, 0.8), "b1")
    b2 = ctx.pick((0.999, 0.5, 0.9), "b2")
    eps = ctx.pick((1e-3, 1e-2, 3e-4), "eps")
    clip = ctx.pick((1e3, 0.05, 0.3), "clip")
    lrs = [0.05] if not ctx.chance(1, 2, "schedule") else [ctx.pick((0.02, 0.05, 0.1, 0.01, 0.2), "lr") for _ in range(ctx.between(2, 8, "positions"))]
    table_lr = jnp.asarray(np.asarray(lrs, np.float32))
    lr = (lambda i: table_lr[i % len(lrs)]) if len(lrs) > 1 else lrs[0]
    ctx.cover("complex", any(cplx), all(cplx), "clip", clip, "fwd", s.fwd)

    def loss(leaves, treedef, X, Y, U):
        p = jax.tree.unflatten(treedef, leaves)
        out = jnp.concatenate([x for x in jax.tree.leaves(X)], axis=-1)
        for q in p:
            out = mix_forward(q, out)
        pred = jnp.concatenate([out, jnp.zeros((out.shape[0], 2), out.dtype)], axis=-1)
        return world.sqerr(Y, U, pred)

    grad = jax.jit(jax.grad(loss), static_argnums=1)

    with seams.Env(ctx, clock="steady", seed=ctx.draw(50, "ambient")):
        m = s.model()
        data = s.data()
        dstruct = jax.tree.structure((data["X"], data.get("Y"), data.get("Y_unc")))
        mods = world.param_modules(m)
        own = [jax.tree.leaves(q.get_params()) for q in mods]
        treedef = jax.tree.structure([q.get_params() for q in mods])
        mem = None
        for phase in range(ctx.between(1, 3, "phases")):
            frozen = [ctx.chance(1, 4, "frozen") for _ in mods]
            if all(frozen):
                frozen[0] = False
            for q, f in zip(mods, frozen):
                q.freeze() if f else q.unfreeze()
            resume = phase > 0 and ctx.chance(3, 4, "resume")
            E = ctx.between(1, 4, "epochs")
            edit = ctx.pick((None, None, "scale", "add"), "edit")
            key = ctx.pick((None, None, 7), "callback key")
            table = [2.0 - i / 64.0 for i in range(E + 2)]

            def callback(rng, epoch, params):
                if edit == "scale":
                    params = [p * jnp.asarray(0.9, p.dtype) for p in params]
                elif edit == "add":
                    params = [p + jnp.asarray(0.1, p.dtype) for p in params]
                return (jax.random.key(key) if key is not None else rng), params

            start = [np.asarray(x) for x in jax.tree.leaves(m.get_params())]
            rec = world.Recorder()
            ctx.ev("train", s.spec, s.n, s.bs, E, frozen, resume, b1, b2, eps, clip, lrs, edit, key)
            base = s.train(m, rec, table, data=data, callback=callback, epochs=E, resume=resume, lr=lr,
                           b1=b1, b2=b2, eps=eps, clip=clip, verbose=ctx.chance(1, 5, "verbose"),
                           batch_rng=s.bseed + phase)
            K = len(rec.cb)
            ctx.check(K == E, "epochs", lambda: f"{K} epochs instead of {E}")
            ctx.count("epochs", K)
            flags = [not f for q, f in zip(mods, frozen) for _ in jax.tree.leaves(q.get_params())]
            if mem is None or not resume:
                mem = [[np.zeros(x.shape, np.complex128 if np.iscomplexobj(x) else np.float64),
                        np.zeros(x.shape, np.float64), 0] for x in start]
            cur = [np.array(x) for x in start]
            orders = []
            for e in range(K):
                ref = [np.array(x, np.complex128 if np.iscomplexobj(x) else np.float64) for x in cur]
                order = []
                for i in range(s.spe):
                    b = rec.train.get(base + e * s.spe + i, [])
                    ctx.check(len(b) == 1, "steps", lambda: f"epoch {e} step {i}: {len(b)} batches")
                    order.append(cmp.tdigest(b[0]))
                    X, Y, U = jax.tree.unflatten(dstruct, [jnp.asarray(x) for x in b[0]])
                    g = grad([jnp.asarray(r.astype(c.dtype)) for r, c in zip(ref, cur)], treedef, X, Y, U)
                    for j, gj in enumerate(g):
                        if not flags[j]:
                            continue
                        gj = np.asarray(gj)
                        t = mem[j]
                        lr_now = lrs[t[2] % len(lrs)]
                        if np.iscomplexobj(gj):
                            gj = np.clip(gj.real, -clip, clip) - 1j * np.clip(gj.imag, -clip, clip)
                        else:
                            gj = np.clip(gj, -clip, clip)
                        t[0] = b1 * t[0] + (1 - b1) * gj
                        t[1] = b2 * t[1] + (1 - b2) * np.abs(gj) ** 2
                        mh = t[0] / (1 - b1 ** (t[2] + 1))
                        vh = t[1] / (1 - b2 ** (t[2] + 1))
                        ref[j] = ref[j] - lr_now * mh / (np.sqrt(vh) + eps)
                orders.append(tuple(order))
                ctx.check(len(rec.cb.get(e, ())) >= 1, "callback-missing", lambda: f"no callback for epoch {e}, but for {sorted(rec.cb)}")
                got = rec.cb[e][0]
                for j in range(len(ref)):
                    if flags[j]:
                        lr_now = lrs[mem[j][2] % len(lrs)]
                        tol = 0.01 * lr_now * s.spe + 1e-5 * (1 + float(np.max(np.abs(ref[j]))))
                        err = float(np.max(np.abs(got[j] - ref[j])))
                        ctx.check(err <= tol, "wrong-update",
                                  lambda: f"phase {phase} epoch {e} parameter {j}: {cmp.short(got[j])} instead of {cmp.short(ref[j])} (position {mem[j][2]}, learning rate {lr_now}, before the epoch {cmp.short(cur[j])})")
                        mem[j][2] += 1
                    else:
                        ctx.check(np.array_equal(got[j], cur[j]), "frozen-updated", lambda: f"frozen parameter {j} changed")
                cur = [np.array(x) for x in got]
                # what the callback returned is what goes on
                if edit == "scale":
                    cur = [x * np.asarray(0.9, x.dtype) for x in cur]
                elif edit == "add":
                    cur = [x + np.asarray(0.1, x.dtype) for x in cur]
            if key is not None and K >= 3:
                ctx.check(len(set(orders[1:])) == 1, "callback-key-ignored",
                          lambda: f"the callback returned the same key every epoch but the orders differ: {orders}")
            ctx.ev("params", cmp.tdigest([x for x in cur]))
            # training handed back the last point, before the callback's edit
            d = cmp.diff([np.asarray(x) for x in jax.tree.leaves(m.get_params())], rec.cb[K - 1][0])
            ctx.check(d is None, "not-handed-back", lambda: d)
