"""Models, data and training set-ups as plain data (so that twins can be built
from them), and observation of objects through the public interface only."""
import numpy as np
import jax
import jax.numpy as jnp

import parametricmatrixmodels as pmm
from parametricmatrixmodels import modules as M

from . import cmp, simmods, zoo
from .simmods import Echo, Fan, Merge, Mix, Scale

# ------------------------------------------------------------------ models
# A spec is [type, args...]; children are specs again.

ACTS = ("Tanh", "Sigmoid", "SoftPlus", "Sine")


def act_class(i):
    names = [n for n in ACTS if hasattr(M, n)]
    return getattr(M, names[i % len(names)])


def build_module(s):
    t = s[0]
    if t == "matmul":
        return M.MatMul(output_shape=s[1], trainable=True, init_magnitude=0.6)
    if t == "cmatmul":
        return M.MatMul(
            output_shape=s[1], trainable=True, init_magnitude=0.6, real=False
        )
    if t == "bias":
        return M.Bias(init_magnitude=0.4)
    if t == "cbias":
        return M.Bias(init_magnitude=0.4, real=False)
    if t == "linear":
        return M.LinearNN(
            out_features=s[1],
            init_magnitude=0.6,
            activation=act_class(s[2])() if len(s) > 2 else None,
        )
    if t == "act":
        return act_class(s[1])()
    if t == "prelu":
        return M.PReLU(single_parameter=len(s) > 1)
    if t == "eig":
        return M.AffineEigenvaluePMM(matrix_size=3, num_eig=s[1], init_magnitude=0.5)
    if t == "obs":
        return M.AffineObservablePMM(
            matrix_size=3,
            num_eig=2,
            smoothing=1.0,
            num_secondaries=1,
            output_size=s[1],
            init_magnitude=0.4,
        )
    if t == "einsum":
        return M.Einsum(
            ("ij,j->i"), dim_map={"i": s[1]}, trainable=True, init_magnitude=0.6
        )
    if t == "abs2":
        return AbsSquare()
    if t == "comment":
        return M.Comment(s[1])
    if t == "scale":
        return Scale(s[1] if len(s) > 1 else 1.5)
    if t == "echo":
        return Echo(**s[1])
    if t == "mix":
        return Mix(s[1], s[2])
    if t == "merge":
        return Merge()
    if t == "fan":
        return Fan()
    if t == "cat":
        return M.ConcatenateLeaves()
    if t == "mod":
        return zoo.make(s)
    if t in ("seq", "nonseq"):
        return build(s)
    raise ValueError(s)


class AbsSquare(M.FuncBase):
    """Makes complex data real."""

    __version__ = "0.0.0"

    def f(self, data):
        return jax.tree.map(lambda x: jnp.real(x * jnp.conj(x)), data)

    def get_hyperparameters(self):
        return {}

    def set_hyperparameters(self, h):
        pass

    def get_output_shape(self, input_shape):
        return input_shape

    @property
    def name(self):
        return "AbsSquare"


def contain(kind, mods):
    if kind == "list":
        return list(mods)
    if kind == "tuple":
        return tuple(mods)
    return {f"k{i:02d}": m for i, m in enumerate(mods)}


def build_tree(t):
    """A dictionary or list of specs, or such again."""
    if isinstance(t, dict):
        return {k: build_tree(c) for k, c in t.items()}
    if isinstance(t, list) and t and not isinstance(t[0], str):
        return [build_tree(c) for c in t]
    return build_module(t)


def gen_key(ctx, n, label="key"):
    """A seed or a random key of any implementation."""
    k = ctx.draw(n, label)
    kind = ctx.weighted([("int", 6), ("key", 1), ("rbg", 1), ("unsafe_rbg", 1), ("legacy", 1)], "key kind")
    ctx.cover("random key", kind)
    if kind == "int":
        return k
    if kind == "legacy":
        return jax.random.PRNGKey(k)
    return jax.random.key(k) if kind == "key" else jax.random.key(k, impl=kind)


def build(s, rng=None):
    """s = ["seq", container, [children], name] or
    ["nonseq", {name: child}, connections, separator, name]"""
    if s[0] == "seq":
        mods = contain(s[1], [build_module(c) for c in s[2]])
        m = pmm.SequentialModel(mods, rng=rng)
        if len(s) > 3 and s[3]:
            m.name = s[3]
        return m
    if s[0] == "nonseq":
        m = pmm.NonSequentialModel(build_tree(s[1]), s[2], rng=rng, **({"separator": s[3]} if len(s) > 3 else {}))
        if len(s) > 4 and s[4]:
            m.name = s[4]
        return m
    raise ValueError(s)


def has_complex(spec):
    if isinstance(spec, dict):
        return any(has_complex(v) for v in spec.values())
    if not isinstance(spec, (list, tuple)) or not spec:
        return False
    if spec[0] in ("cmatmul", "cbias", "obs", "eig"):
        return True
    return any(has_complex(x) for x in spec)


def gen_layer(ctx, w, k, opts):
    """A layer taking w columns to k columns (k chosen freely if None)."""
    if k is None:
        k = ctx.between(1, 3, "width")
    kinds = [
        ("linear", 3),
        ("matmul", 3),
        ("einsum", 1),
    ]
    if opts.get("pmm", True):
        kinds += [("obs", 1), ("eig", 1 if k <= 2 else 0)]
    if opts.get("complex", False):
        kinds += [("complex", 2)]
    if opts.get("nested", True):
        kinds += [("seq", 2), ("nonseq", 2)]
    kinds = [x for x in kinds if x[1] > 0]
    t = ctx.weighted(kinds, "layer")
    if t == "linear":
        if ctx.chance(1, 2, "activation"):
            return [["linear", k, ctx.draw(len(ACTS), "act")]], k
        return [["linear", k]], k
    if t == "matmul":
        return [["matmul", k], ["bias"]], k
    if t == "einsum":
        return [["einsum", k]], k
    if t == "obs":
        return [["obs", k]], k
    if t == "eig":
        return [["eig", k]], k
    if t == "complex":
        return [["cmatmul", k], ["cbias"], ["abs2"]], k
    inner = dict(opts, nested=False, pmm=False)
    if t == "seq":
        body, _ = gen_layer(ctx, w, k, inner)
        extra = gen_flat(ctx, opts)
        return [
            ["seq", ctx.pick(("list", "dict", "tuple"), "container"), body + extra]
        ], k
    a, wa = gen_layer(ctx, w, None, inner)
    b, wb = gen_layer(ctx, w, None, inner)
    mods = {
        "a": a[0] if len(a) == 1 else ["seq", "list", a],
        "b": b[0] if len(b) == 1 else ["seq", "list", b],
        "m": ["merge"],
    }
    ma, mb = ctx.pick((("m.0", "m.1"), ("m.x", "m.y"), ("m", "m"), ("m.x", "m"), ("m", "m.b"), ("m.1", "m.0")), "wires")
    conn = {"input": ["a", "b"], "a": ma, "b": mb, "m": "output"}
    if ctx.chance(1, 4, "order"):
        conn = dict(reversed(list(conn.items())))
    tail, _ = gen_layer(ctx, wa + wb, k, inner)
    return [["nonseq", mods, conn]] + tail, k


def gen_flat(ctx, opts):
    """Layers that keep the width."""
    out = []
    for _ in range(ctx.draw(2, "flats")):
        t = ctx.weighted(
            [("scale", 2), ("bias", 2), ("act", 2), ("prelu", 1), ("comment", 1)],
            "flat",
        )
        if t == "act":
            out.append(["act", ctx.draw(len(ACTS), "act")])
        elif t == "comment":
            out.append(["comment", "note"])
        elif t == "prelu" and ctx.chance(1, 2, "single"):
            out.append(["prelu", 1])
        else:
            out.append([t])
    return out


def gen_model(ctx, w, k, opts=None, echo=None, head=None, top=None):
    """A whole model: w input columns, k output columns (+2 if echo appends).
    echo: keyword arguments of the Echo put at the end (None: no Echo)."""
    opts = dict(opts or {})
    layers = list(head or [])
    for _ in range(ctx.draw(opts.get("depth", 2), "depth")):
        body, w = gen_layer(ctx, w, None, opts)
        layers += body + gen_flat(ctx, opts)
    body, w = gen_layer(ctx, w, k, opts)
    layers += body
    if opts.get("tailflat", True):
        layers += gen_flat(ctx, opts)
    if echo is not None:
        layers.append(["echo", dict(echo)])
    kind = top or ctx.pick(("list", "tuple", "dict"), "container")
    return ["seq", kind, layers]


def walk(model):
    """All modules of a model, outermost first, in the order of the tree."""
    out = [model]
    if isinstance(model, pmm.Model):
        for m in jax.tree.leaves(
            model.get_modules(), is_leaf=lambda x: isinstance(x, M.BaseModule)
        ):
            out += walk(m)
    return out


def has_params(m):
    p = m.get_params()
    return p is not None and len(jax.tree.leaves(p)) > 0


def param_modules(model):
    """Innermost modules that have parameters."""
    return [m for m in walk(model) if not isinstance(m, pmm.Model) and has_params(m)]


def describe(model):
    """Structure, types, names and flags, as nested lists."""
    if isinstance(model, pmm.Model):
        mods = model.get_modules()
        return [
            type(model).__name__,
            model.name,
            str(jax.tree.structure(mods)),
            [describe(m) for m in jax.tree.leaves(mods)],
        ]
    return [type(model).__name__, model.name, bool(model.trainable)]


def contents(model):
    return {
        "params": cmp.freeze(model.get_params()),
        "state": cmp.freeze(model.get_state()),
        "rng": cmp.freeze(model.get_rng()),
    }


def observe(model, X=None, predict=True, **kw):
    o = contents(model)
    o["what"] = describe(model)
    o["ready"] = bool(model.is_ready())
    if predict and X is not None and o["ready"]:
        o["pred"] = cmp.freeze(model(X, **kw))
    return o


def obs_diff(a, b, rtol=None):
    for k in a:
        if k not in b:
            return f"{k} missing"
        if k in ("what", "ready"):
            if a[k] != b[k]:
                return f"{k}: {a[k]} != {b[k]}"
        else:
            d = cmp.diff(a[k], b[k], rtol=rtol if k in ("pred", "params") else None)
            if d:
                return f"{k}: {d}"
    return None


# -------------------------------------------------------------------- data
def f32(x):
    return jnp.asarray(np.asarray(x, np.float32))


def rows(rs, n, w):
    return rs.uniform(-1.0, 1.0, size=(n, w)).astype(np.float32)


def make_x(kind, n, w, seed, ids=None):
    """Input data with w columns in all."""
    rs = np.random.RandomState(seed)
    a = rows(rs, n, w)
    if kind == "array":
        return f32(a)
    if kind == "list":
        return [f32(a[:, :1]), f32(a[:, 1:])]
    if kind == "dict":
        return {"p": f32(a[:, :1]), "q": [f32(a[:, 1:])]}
    raise ValueError(kind)


def head_for(kind):
    return [] if kind == "array" else [["merge"]]


def shape_of(X):
    return jax.tree.map(lambda x: tuple(x.shape[1:]), X)


# -------------------------------------------------------- scripted training
class Recorder:
    """Collects what user code sees during one training run."""

    def __init__(self):
        self.train = {}  # training steps so far -> list of batches
        self.val = {}
        self.cb = {}  # epoch -> list of parameter lists
        self.keys = []  # (tag, training, calls, key)
        self.hook = None  # called as hook(where, number) for every event

    def _ev(self, where, n):
        if self.hook is not None:
            self.hook(where, n)

    def on_train(self, calls, leaves):
        calls = int(np.asarray(calls))
        new = [np.array(x, copy=True) for x in leaves]
        got = self.train.setdefault(calls, [])
        if not any(
            len(o) == len(new)
            and all(np.array_equal(p, q, equal_nan=True) for p, q in zip(o, new))
            for o in got
        ):
            got.append(new)
            self._ev("train", calls)

    def on_val(self, calls, u, leaves):
        calls = int(np.asarray(calls))
        self.val.setdefault(calls, []).append(
            (float(np.asarray(u)), [np.array(x, copy=True) for x in leaves])
        )
        self._ev("val", calls)

    def on_cb(self, epoch, params):
        epoch = int(np.asarray(epoch))
        self.cb.setdefault(epoch, []).append(
            [np.array(x, copy=True) for x in params]
        )
        self._ev("cb", epoch)

    def on_echo(self, tag, training, calls, key):
        self.keys.append((tag, training, calls, key))


def pad(Y_pred):
    """The echoed columns of a prediction: (training steps so far, u)."""
    return Y_pred[0, -2], Y_pred[0, -1]


def sqerr(Y, Y_unc, Y_pred):
    main = Y_pred[:, :-2]
    if Y is None:
        return jnp.mean(jnp.abs(main) ** 2)
    Yc = jnp.concatenate([y for y in jax.tree.leaves(Y)], axis=-1)
    Yc = Yc[:, : main.shape[-1]]
    r = jnp.abs(main[:, : Yc.shape[-1]] - Yc) ** 2
    if Y_unc is not None:
        U = jnp.concatenate([u for u in jax.tree.leaves(Y_unc)], axis=-1)
        r = r / (1.0 + jnp.abs(U[:, : r.shape[-1]]))
    return jnp.mean(r)


def user_losses(rec, table, base, spe, has_y, has_unc, real=False):
    """(training loss, validation loss).  The training loss is a squared
    error; the validation loss is the script `table`, looked up by the number
    of finished epochs (unless real: then the same squared error)."""
    tab = None if table is None else jnp.asarray(np.asarray(table, np.float32))

    def train(epoch, X, Y, Y_unc, pred):
        calls, _ = pad(pred)
        leaves = jax.tree.leaves((X, Y, Y_unc))
        jax.debug.callback(
            lambda c, *ls: rec.on_train(c, ls),
            jax.lax.stop_gradient(calls),
            *leaves,
        )
        return sqerr(Y, Y_unc, pred)

    def val(epoch, X, Y, Y_unc, pred):
        calls, u = pad(pred)
        leaves = jax.tree.leaves((X, Y, Y_unc))
        jax.debug.callback(lambda c, v, *ls: rec.on_val(c, v, ls), calls, u, *leaves)
        if real:
            return sqerr(Y, Y_unc, pred)
        i = (jnp.round(jnp.real(calls)).astype(jnp.int32) - base) // spe
        i = jnp.clip(i, 0, tab.shape[0] - 1)
        return tab[i]

    def sig(fn):
        if has_unc:
            return fn
        if has_y:
            return lambda epoch, X, Y, pred: fn(epoch, X, Y, None, pred)
        return lambda epoch, X, pred: fn(epoch, X, None, None, pred)

    return sig(train), sig(val)


def steps_per_epoch(n, bs):
    bs = min(n, bs)
    return -(-n // bs)


def done():
    jax.effects_barrier()


def train_calls(model):
    """Training steps counted by the (last) Echo of a model."""
    es = [m for m in walk(model) if isinstance(m, Echo)]
    return int(np.asarray(es[-1].calls)) if es else 0
