"""Each epoch uses every sample exactly once, intact."""
import jax
import numpy as np

from sim import seams, world
from sim.setup import Setup, gen_table


def index_rows(ctx, kind, leaves, originals):
    """Which samples a batch consists of, by its contents; every array of the
    batch must agree."""
    ctx.check(len(leaves) == len(originals), "arrays-missing",
              lambda: f"{kind}: {len(leaves)} arrays instead of {len(originals)}")
    found = None
    for a, o in zip(leaves, originals):
        o = np.asarray(o)
        ctx.check(a.shape[1:] == o.shape[1:] and a.dtype == o.dtype, "rows-changed",
                  lambda: f"{kind}: shape {a.shape} {a.dtype}, data {o.shape} {o.dtype}")
        where = {o[i].tobytes(): i for i in range(o.shape[0])}
        try:
            idx = [where[a[i].tobytes()] for i in range(a.shape[0])]
        except KeyError:
            ctx.fail("rows-changed", f"{kind}: a batch contains a row that is not in the data: {a}")
        if found is None:
            found = idx
        ctx.check(found == idx, "rows-mismatched",
                  lambda: f"{kind}: arrays of one batch hold different samples: {found} and {idx}")
    return found


def sizes(n, bs):
    bs = n if bs <= 0 or bs > n else bs
    return [bs] * (n // bs) + ([n % bs] if n % bs else [])


def run(ctx):
    s = Setup(ctx, opts={"nested": False, "pmm": False, "depth": 1, "tailflat": False},
              max_n=13, xkinds=("array", "list", "dict"))
    # validation layouts are free here, the losses need not be exact
    s.nval = ctx.between(1, 9, "val samples")
    s.vbs = ctx.between(0, s.nval + 1, "val batch")
    s.unroll = ctx.pick((None, 1, 2, 3), "unroll")
    with seams.Env(ctx, clock=ctx.pick(("steady", "jumpy", "backwards"), "clock"), seed=ctx.draw(50, "ambient")):
        m = s.model()
        data = s.data()
        t_or = jax.tree.leaves((data["X"], data.get("Y"), data.get("Y_unc")))
        v_or = jax.tree.leaves((data["X_val"], data.get("Y_val"), data.get("Y_val_unc")))
        for phase in range(1 + (1 if ctx.chance(1, 4, "again") else 0)):
            E = ctx.between(1, 6, "epochs")
            rec = world.Recorder()
            ctx.ev("train", s.n, s.bs, s.nval, s.vbs, s.xkind, s.ykind, s.has_y, s.has_unc, E, s.unroll, s.fwd)
            table = [2.0 - i / 64.0 for i in range(E + 2)]
            base = s.train(m, rec, table, data=data, epochs=E, verbose=ctx.chance(1, 4, "verbose"),
                           resume=phase > 0 and ctx.chance(1, 2, "resume"))
            K = len(rec.cb)
            ctx.check(K == E, "epochs", lambda: f"{K} epochs instead of {E}")
            ctx.count("epochs", K)
            want = sizes(s.n, s.bs)
            ctx.cover("batches", min(len(want), 4), "rem", want[-1] != want[0])
            ctx.check(set(rec.train) == {base + i for i in range(K * s.spe)}, "steps",
                      lambda: f"training steps {sorted(rec.train)}, expected {K} epochs of {s.spe} from {base}")
            orders = []
            for e in range(K):
                order, got = [], []
                for i in range(s.spe):
                    bs_ = rec.train[base + e * s.spe + i]
                    ctx.check(len(bs_) == 1, "step-with-two-batches",
                              lambda: f"epoch {e} step {i} used {len(bs_)} different batches")
                    idx = index_rows(ctx, f"epoch {e} step {i}", bs_[0], t_or)
                    got.append(len(idx))
                    order += idx
                ctx.check(got == want, "batch-sizes", lambda: f"epoch {e}: batches of {got}, expected {want}")
                ctx.check(sorted(order) == list(range(s.n)), "samples-not-once",
                          lambda: f"epoch {e} used samples {order} of {s.n}")
                orders.append(tuple(order))
            ctx.ev("orders", orders)
            if s.n >= 6 and K >= 4:
                ctx.check(len(set(orders)) > 1, "order-not-fresh", lambda: f"all {K} epochs used the order {orders[0]}")
            if s.n >= 7:
                same = sum(1 for a, b in zip(orders, orders[1:]) if a == b)
                ctx.check(same < 2, "order-not-fresh", lambda: f"{same} of {K} epochs repeated the order before: {orders}")
            vwant = sorted(sizes(s.nval, s.vbs))
            ctx.check(set(rec.val) == {base + e * s.spe for e in range(K + 1)}, "validations",
                      lambda: f"validations after steps {sorted(rec.val)}")
            for c, batches in rec.val.items():
                seen, got = [], []
                for _, ls in batches:
                    idx = index_rows(ctx, f"validation after step {c - base}", ls, v_or)
                    got.append(len(idx))
                    seen += idx
                ctx.check(sorted(seen) == list(range(s.nval)), "validation-samples-not-once",
                          lambda: f"validation after step {c - base} used samples {sorted(seen)} of {s.nval}")
                ctx.check(sorted(got) == vwant, "validation-batch-sizes",
                          lambda: f"validation after step {c - base}: batches of {sorted(got)}, expected {vwant}")
