"""A training set-up drawn from choices: model, data, options."""
import signal

import numpy as np
import jax

from . import cmp, seams, simmods, world
from .core import Discard

NAN, INF = float("nan"), float("inf")


class Setup:
    """Everything needed to run model.train once or several times, as plain
    data, so that twins can be made."""

    def __init__(self, ctx, *, opts=None, echo_noise=True, full_batch=False,
                 allow_unsup=True, xkinds=("array", "array", "list", "dict"), head_echo=False,
                 max_n=9, spec=None, ks=2):
        c = self.ctx = ctx
        self.xkind = c.pick(xkinds, "xkind")
        self.w = c.between(2, 3, "inputs")
        self.k = c.between(1, ks, "outputs")
        self.n = c.between(1, max_n, "samples")
        if full_batch:
            self.bs = self.n + c.draw(2, "bs+")
        else:
            self.bs = c.between(1, self.n + 1, "batch")
        self.has_y = not (allow_unsup and c.chance(1, 8, "unsupervised"))
        self.has_unc = self.has_y and c.chance(1, 3, "uncertainties")
        self.ykind = c.pick(("array", "array", "list"), "ykind") if self.k == 2 else "array"
        self.nval = c.between(1, 8, "val samples")
        ok = [b for b in range(1, self.nval + 1) if -(-self.nval // b) in (1, 2, 4)]
        self.vbs = c.pick([0, self.nval] + ok, "val batch")
        self.unroll = c.pick((None, None, 1, 2), "unroll")
        self.fwd = c.chance(1, 8, "fwd")
        noise = 0.05 if (echo_noise and c.chance(1, 3, "noise")) else 0.0
        heads = world.head_for(self.xkind)
        self.noisy = False
        self.even_val = self.vbs == 0 or self.nval % self.vbs == 0
        if head_echo and c.chance(1, 2, "head echo"):
            self.noisy = noise > 0
            heads = heads + [["echo", {"tag": 1, "noise": noise, "append": False,
                                       "touch": c.chance(1, 3, "touch")}]]
        self.spec = spec(self, heads) if spec is not None else world.gen_model(
            c, self.w, self.k, opts=opts,
            echo={"tag": 0, "noise": 0.0, "touch": c.chance(1, 4, "touch")},
            head=heads,
        )
        if world.has_complex(self.spec):
            self.fwd = False  # forward mode is for real parameters only
        self.dseed = c.draw(1000, "data seed")
        self.cseed = c.draw(1000, "compile seed")
        self.mseed = c.draw(1000, "model seed")
        self.bseed = c.draw(1000, "batch seed")
        self.lr = c.pick((0.05, 0.01, 0.2), "lr")
        self.spe = world.steps_per_epoch(self.n, self.bs)
        c.cover("layout", "rem" if self.n % min(self.bs, self.n) else "even",
                "1" if self.spe == 1 else "many")
        c.cover("x", self.xkind, "y", self.ykind, self.has_y, self.has_unc)

    # data -------------------------------------------------------------
    def x(self, n, salt):
        return world.make_x(self.xkind, n, self.w, self.dseed * 10 + salt)

    def y(self, n, salt):
        rs = np.random.RandomState(self.dseed * 10 + salt)
        a = world.rows(rs, n, self.k)
        if self.ykind == "list":
            return [world.f32(a[:, :1]), world.f32(a[:, 1:])]
        return world.f32(a)

    def data(self):
        d = {"X": self.x(self.n, 0), "X_val": self.x(self.nval, 1)}
        if self.has_y:
            d["Y"] = self.y(self.n, 2)
            d["Y_val"] = self.y(self.nval, 3)
        if self.has_unc:
            d["Y_unc"] = self.y(self.n, 4)
            d["Y_val_unc"] = self.y(self.nval, 5)
        return d

    def model(self, compile=True):
        m = world.build(self.spec, rng=self.mseed)
        if compile:
            m.compile(self.cseed, world.shape_of(self.x(1, 0)))
        return m

    # training ---------------------------------------------------------
    def kwargs(self, data=None):
        d = dict(data or self.data())
        X = d.pop("X")
        Y = d.pop("Y", None)
        kw = dict(
            d,
            batch_size=self.bs,
            val_batch_size=self.vbs,
            unroll=self.unroll,
            fwd=self.fwd,
            lr=self.lr,
            verbose=False,
            batch_rng=self.bseed,
        )
        return X, Y, kw

    def train(self, model, rec, table, *, real=False, callback=None, data=None, **over):
        """One training run with recording user code.  callback(rng, epoch,
        params) -> (rng, params) is applied after recording."""
        base = world.train_calls(model)
        lt, lv = world.user_losses(
            rec, table, base, self.spe, self.has_y, self.has_unc, real=real
        )

        def cb(rng, epoch, params):
            jax.debug.callback(lambda e, *p: rec.on_cb(e, p), epoch, *params)
            if callback is not None:
                return callback(rng, epoch, params)
            return rng, params

        X, Y, kw = self.kwargs(data)
        kw.update(loss_fn=lt, val_loss_fn=lv, callback=cb)
        kw.update(over)
        simmods.RECORD = rec.on_echo
        try:
            if Y is None:
                model.train(X, **kw)
            else:
                model.train(X, Y, **kw)
        finally:
            world.done()
            simmods.RECORD = None
        return base


class Scale:
    """The grid of a script of losses: coarse, fine around +-1, negative, tiny
    or huge; all of its numbers are exact in single precision."""

    KINDS = {
        "usual": (0.0, 1 / 64), "negative": (-3.0, 1 / 64), "sign": (-1.5, 1 / 64), "fine": (1.0, 2.0**-18),
        "fine negative": (-1.0, 2.0**-18), "tiny": (0.0, 2.0**-40), "huge": (0.0, 2.0**30),
    }

    def __init__(self, ctx):
        self.kind = ctx.pick(("usual", "usual", "usual", "negative", "sign", "fine", "fine negative", "tiny", "huge"), "scale")
        ctx.cover("scale", self.kind)
        self.offset, self.unit = self.KINDS[self.kind]

    def loss(self, v):
        """v in units of 1/64 of the usual grid."""
        return float(self.offset + v * self.unit)

    def delta(self, v):
        return float(v * self.unit)


def gen_table(ctx, length, nan=True, inf=True, scale=None):
    """A script of validation losses on a grid of 1/64 (or another scale)."""
    scale = scale.loss if scale is not None else (lambda v: v / 64.0)
    style = ctx.pick(("walk", "down", "plateau", "up", "spiky"), "script")
    v = 64 + ctx.draw(64, "start")
    out = [scale(v)]
    if inf and ctx.chance(1, 12, "inf start"):
        out[0] = INF
    for _ in range(length - 1):
        if style == "walk":
            v += ctx.draw(9, "d") - 4
        elif style == "down":
            v -= 1 + ctx.draw(3, "d")
        elif style == "plateau":
            v -= ctx.pick((0, 0, 0, 1, -1), "d")
        elif style == "up":
            v += ctx.pick((1, 2, 0, -1), "d")
        else:
            v = 32 + ctx.draw(96, "d")
        x = scale(v)
        s = ctx.weighted([("num", 22), ("nan", 1 if nan else 0), ("inf", 1 if inf else 0)], "special")
        out.append({"num": x, "nan": NAN, "inf": INF}[s])
    ctx.cover("script", style)
    return out


def best_index(table, upto):
    """The earliest point with the lowest loss among 0..upto."""
    best, arg = table[0], 0
    for i in range(1, upto + 1):
        if table[i] < best:
            best, arg = table[i], i
    return arg


def flat(params):
    return [np.asarray(x) for x in jax.tree.leaves(params)]


def same_params(a, b):
    return cmp.diff(list(a), list(b))


class Ticks:
    """Numbers the moments of a training run at which something can strike:
    every write to standard output and every visit to user code, once the
    first validation has begun."""

    def __init__(self, rec, out, at, action):
        self.rec, self.at, self.action = rec, list(at), action
        self.n = 0
        self.log = []
        self.began = False
        rec.hook = self.user
        out.on_write = self.write
        self.out = out

    def user(self, where, number):
        self.began = True
        self.tick(where, number)

    def write(self, n, text):
        if self.began:
            self.tick("write", n)

    def tick(self, where, number):
        self.n += 1
        hits = self.at.count(self.n)
        if hits:
            self.log.append(where)
            for _ in range(hits):
                self.action(where, number)

    def off(self):
        self.rec.hook = None
        self.out.on_write = None
