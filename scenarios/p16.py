"""State and randomness advance once per training step."""
import numpy as np

from sim import cmp, seams, world
from sim.setup import Setup


def gen(ctx):
    tags = [0]

    def echo(append=False):
        tags.append(tags[-1] + 1)
        return ["echo", {"tag": tags[-1], "append": append, "touch": ctx.chance(1, 3, "touch"),
                         "noise": 0.01 if ctx.chance(1, 3, "noise") else 0.0,
                         "start": 1000 * tags[-1]}]

    def group(depth, first):
        """Layers that keep the width; at least one of them an Echo."""
        out = [echo()] if first else []
        for _ in range(ctx.draw(3, "items")):
            t = ctx.weighted([("echo", 3), ("flat", 2), ("seq", 3 if depth else 0), ("nonseq", 2 if depth else 0)], "item")
            if t == "echo":
                out.append(echo())
            elif t == "flat":
                out.append(ctx.pick((["scale"], ["bias"], ["act", 0], ["comment", "c"]), "flat"))
            elif t == "seq":
                out.append(["seq", ctx.pick(("list", "tuple", "dict"), "container"), group(depth - 1, True)])
            else:
                a = ["seq", "list", group(depth - 1, True)]
                b = echo() if ctx.chance(1, 2, "plain") else ["seq", "dict", group(depth - 1, True)]
                shape = ctx.draw(3, "graph")
                mods = {"a": a, "b": b, "m": ["merge"]}
                if shape == 0:
                    conn = {"input": ["a", "b"], "a": "m.0", "b": "m.1", "m": "output"}
                elif shape == 1:
                    conn = {"input": "a", "a": ["b", "m.0"], "b": "m.1", "m": "output"}
                else:
                    mods["c"] = echo()
                    conn = {"input": ["a", "b", "c"], "a": "m.0", "b": "m.1", "c": "m.2", "m": "output"}
                out.append(["nonseq", mods, conn])
                out.append(["matmul", 2])
        return out

    def spec(s, heads):
        body = group(2, ctx.chance(1, 2, "first"))
        kind = ctx.pick(("list", "tuple", "dict"), "container")
        return ["seq", kind, heads + body + [["linear", s.k], ["echo", {"tag": 0, "start": 0}]]]

    return spec, tags


def run(ctx):
    spec, tags = gen(ctx)
    s = Setup(ctx, spec=spec, echo_noise=False, max_n=6)
    ctx.cover("echoes", len(tags))
    with seams.Env(ctx, clock="steady", seed=ctx.draw(50, "ambient")):
        m = s.model()
        data = s.data()
        seen = {}  # key -> (tag, step)
        done = 0
        for phase in range(1 + ctx.draw(2, "again")):
            E = ctx.between(1, 4, "epochs")
            table = [2.0 - i / 64.0 for i in range(E + 2)]
            rec = world.Recorder()
            ctx.ev("train", s.spec, s.n, s.bs, E)
            s.train(m, rec, table, data=data, epochs=E, verbose=ctx.chance(1, 4, "verbose"),
                    resume=phase > 0 and ctx.chance(1, 2, "resume"))
            K = len(rec.cb)
            ctx.count("epochs", K)
            steps = K * s.spe
            val_keys = {}
            train = {}
            for tag, training, calls, key in rec.keys:
                at = calls - 1000 * tag
                if training:
                    train.setdefault((tag, at), set()).add(key)
                else:
                    val_keys.setdefault((tag, at), set()).add(key)
            want = {(t, done + i) for t in tags for i in range(steps)}
            ctx.check(set(train) == want, "state-sequence",
                      lambda: f"training steps saw states {sorted(set(train) ^ want)[:6]} too many or too few (tag, step); steps {done}..{done + steps - 1}")
            for (tag, at), keys in sorted(train.items()):
                ctx.check(len(keys) == 1, "state-repeated", lambda: f"module {tag} saw state {at} in {len(keys)} steps")
                k = next(iter(keys))
                ctx.check(k not in seen, "key-reused",
                          lambda: f"module {tag} at step {at} got the key that module {seen[k][0]} got at step {seen[k][1]}")
                seen[k] = (tag, at)
            vwant = {(t, done + e * s.spe) for t in tags for e in range(K + 1)}
            ctx.check(set(val_keys) == vwant, "validation-state",
                      lambda: f"validation saw other states: {sorted(set(val_keys) ^ vwant)[:6]}")
            for (tag, at), keys in val_keys.items():
                ctx.check(len(keys) == 1, "validation-advances-key",
                          lambda: f"validation after step {at} gave module {tag} {len(keys)} keys")
            done += steps
            # using the model does not advance anything
            before = world.contents(m)
            st = {e.tag: int(np.asarray(e.calls)) - e.start for e in world.walk(m) if isinstance(e, world.Echo)}
            ctx.check(all(v == done for v in st.values()), "state-after-training",
                      lambda: f"states {st} after {done} steps")
            for _ in range(2):
                how = ctx.pick(("plain", "batched", "state", "rng", "noauto"), "predict")
                rec2 = world.Recorder()
                world.simmods.RECORD = rec2.on_echo
                kw = {"batched": {"max_batch_size": 2}, "state": {"return_state": True}, "rng": {"rng": 5},
                      "noauto": {"max_batch_size": 2, "avoid_recompilation": True}}.get(how, {})
                m(data["X_val"], **kw)
                world.done()
                world.simmods.RECORD = None
                for tag, training, calls, key in rec2.keys:
                    ctx.check(not training, "prediction-trains", "a prediction ran in training mode")
                    ctx.check(calls - 1000 * tag == done, "prediction-state",
                              lambda: f"prediction saw state {calls - 1000 * tag} of module {tag}, current is {done}")
                    if how != "rng":
                        ctx.check(key in val_keys[(tag, done)], "prediction-key",
                                  lambda: f"prediction gave module {tag} another key than the validation of the same point")
                d = world.obs_diff(before, world.contents(m))
                ctx.check(d is None, "prediction-changes-model", lambda: f"prediction ({how}) changed the model: {d}")
            ctx.ev("keys", cmp.tdigest([np.asarray(sorted(seen), dtype=np.int64)]))
