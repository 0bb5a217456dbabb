"""Scalers and conformalized models as plain data, and observation of them."""
import numpy as np
import jax
import jax.numpy as jnp

import parametricmatrixmodels as pmm
from parametricmatrixmodels import preprocessing as P

from parametricmatrixmodels.conformal import ConformalizedModel as CM

from . import cmp, world

SCALERS = {"standard": "StandardScaler", "minmax": "MinMaxScaler", "robust": "RobustScaler",
           "onehot": "OneHot", "mixed": "MixedScaler"}


# ----------------------------------------------------------------- scalers
def gen_scaler(ctx, mixed=True, pytree=True):
    """-> [spec, data kind]"""
    t = ctx.pick(("standard", "minmax", "robust", "onehot") + (("mixed",) if mixed else ()), "scaler")
    ctx.cover("scaler", t)
    if t == "mixed":
        parts = [gen_scaler(ctx, mixed=False, pytree=False)[0] if ctx.chance(2, 3, "scaled") else None for _ in range(2)]
        return ["mixed", parts], "dict"
    kind = ctx.pick(("array", "array2", "list", "dict"), "data kind") if pytree else "array"
    if t == "minmax":
        rng = ctx.pick(((0.0, 1.0), (-1.0, 2.0), (-5, 5)), "range")
        return ["minmax", rng[0], rng[1]], kind if kind in ("array", "array2") else "array"
    if t == "robust":
        q = ctx.pick(((0.25, 0.75), (0.1, 0.9), (0.0, 1.0)), "quantiles")
        return ["robust", q[0], q[1], ctx.chance(2, 3, "centering"), ctx.chance(2, 3, "scaling")], "array"
    if t == "onehot" and kind in ("list", "dict"):
        kind = "array"  # leaves with different numbers of classes are rejected
    return [t], kind


def make_scaler(s):
    if s is None:
        return None
    t = s[0]
    if t == "standard":
        return P.StandardScaler()
    if t == "minmax":
        return P.MinMaxScaler((s[1], s[2]))
    if t == "robust":
        return P.RobustScaler((s[1], s[2]), with_centering=s[3], with_scaling=s[4])
    if t == "onehot":
        return P.OneHot()
    return P.MixedScaler({"p": make_scaler(s[1][0]), "q": [make_scaler(s[1][1])]})


def discrete(s):
    return s is not None and s[0] == "onehot"


def scaler_data(s, kind, n, seed, salt=0):
    r = np.random.RandomState(seed * 7 + salt)

    def col(w, disc):
        if disc:
            return jnp.asarray(r.randint(0, 3, (n, w)).astype(np.float32))
        return jnp.asarray((r.normal(size=(n, w)) * (1 + seed % 5) + seed % 3).astype(np.float32))

    if s[0] == "mixed":
        return {"p": col(2, discrete(s[1][0])), "q": [col(1, discrete(s[1][1]))]}
    d = discrete(s)
    if kind == "array":
        return col(1 if d else 2, d)
    if kind == "array2":
        x = col(1, d) if d else col(4, d).reshape(n, 2, 2)
        return x
    if kind == "list":
        return [col(1, d), col(1 if d else 3, d)]
    return {"p": col(1, d), "q": [col(1, d)]}


def observe_scaler(s, probe):
    if not hasattr(s, "transform"):
        return {"type": type(s).__name__, "t": None, "i": None}
    t = s.transform(probe)
    return {"type": type(s).__name__, "t": cmp.freeze(t), "i": cmp.freeze(s.inverse_transform(t))}


def sdiff(a, b, rtol=None):
    if a["type"] != b["type"]:
        return f"{a['type']} != {b['type']}"
    return cmp.diff(a["t"], b["t"], rtol=rtol) or cmp.diff(a["i"], b["i"], rtol=rtol)


# -------------------------------------------------------------- conformal
class Conf:
    """A conformalized model: a small model and calibrations of it."""

    def __init__(self, ctx, faulty=False):
        c = self.ctx = ctx
        self.kind = c.pick(("array", "dict"), "input kind")
        self.k = c.between(1, 2, "outputs")
        head = [] if self.kind == "array" else [["merge"]]
        body = c.pick((
            [["linear", self.k]],
            [["linear", 2, 0], ["linear", self.k]],
            [["matmul", self.k], ["bias"]],
            [["seq", "dict", [["linear", self.k, 0]]], ["scale"]],
        ), "body")
        if faulty:
            body = body + [["echo", {"tag": -1, "append": False}]]
        self.spec = ["seq", c.pick(("list", "dict"), "container"), head + body]
        self.alpha = c.pick((0.3173, 0.5), "alpha")
        self.nnq = c.pick((0.5, 0.8), "nn quantile")
        self.name = c.pick((None, "conf A"), "name")
        self.cseed = c.draw(100, "compile seed")
        self.alphas = [0.5, 0.2, 0.4]

    def x(self, n, seed):
        r = np.random.RandomState(seed)
        cont = jnp.asarray(r.uniform(-1, 1, (n, 2)).astype(np.float32))
        if self.kind == "array":
            return cont
        cont = cont[:, :1]  # all leaves of one size (gradients need that)
        return {"c": cont, "k": jnp.asarray(r.randint(0, 2, (n, 1)).astype(np.float32))}

    def y(self, n, seed):
        r = np.random.RandomState(seed + 1)
        return jnp.asarray(r.uniform(-1, 1, (n, self.k)).astype(np.float32))

    def model(self):
        m = world.build(self.spec, rng=self.cseed)
        m.compile(self.cseed, world.shape_of(self.x(1, 0)))
        return m

    def new(self):
        return CM(self.model(), alpha=self.alpha, nn_dist_quantile=self.nnq, name=self.name)

    def gen_calibration(self):
        """Options of one calibration."""
        c = self.ctx
        o = {"n": c.between(6, 12, "cal samples"), "seed": c.draw(200, "cal seed")}
        o["train"] = c.pick((None, 9, 14), "train samples")
        o["tseed"] = c.draw(200, "train seed")
        o["yunc"] = c.chance(1, 4, "target uncertainty")
        o["xunc"] = c.chance(1, 4, "input uncertainty")
        o["params"] = not c.chance(1, 5, "no parameter sensitivity")
        o["input"] = not c.chance(1, 5, "no input sensitivity")
        o["dist"] = not c.chance(1, 6, "no distance sensitivity") or o["train"] is not None
        # combinations the library rejects with an error
        o["yunc"] = False
        o["xunc"] = False
        if not o["params"] and (o["train"] is None or not (o["input"] or o["dist"])):
            o["params"] = True
        o["bias"] = c.pick((None, None, True, "strata"), "bias correction")
        if o["bias"] == "strata" and self.k > 1:
            o["bias"] = None
        o["batch"] = c.pick((None, 4), "batch")
        if self.kind == "dict" and c.chance(1, 2, "by feature"):
            # options given for each feature
            if o["dist"] and o["train"] is not None:
                o["dist"] = c.pick((True, "c", "k", "ck"), "distance of")
            if o["input"]:
                o["input"] = c.pick((True, "c", "ck"), "input of")
            if o["bias"] != "strata":
                o["cont"] = c.pick(("c", "ck"), "continuous")
        return o

    def kwargs(self, o):
        X, Y = self.x(o["n"], o["seed"]), self.y(o["n"], o["seed"])

        def by_feature(v):
            return {"c": "c" in v, "k": "k" in v} if isinstance(v, str) else v

        kw = dict(skip_sanity_checks=True, parameter_sensitivity=o["params"], input_sensitivity=by_feature(o["input"]),
                  distance_sensitivity=by_feature(o["dist"]), max_batch_size=o["batch"])
        if o["train"] is not None:
            kw["X_train"] = self.x(o["train"], o["tseed"] + 1000)
        if o["yunc"]:
            kw["Y_cal_unc"] = jnp.abs(Y) + 0.5
        if o["xunc"]:
            kw["X_cal_unc"] = jax.tree.map(lambda v: jnp.abs(v) * 0.1 + 0.05, X)
        if self.kind == "dict":
            kw["continuous_features"] = by_feature(o.get("cont", "c"))
        if o["bias"] is True:
            kw["stratified_bias_corrections"] = True
        elif o["bias"] == "strata" and self.kind == "dict":
            kw["stratified_bias_corrections"] = {"c": False, "k": True}
        return X, Y, kw

    def calibrate(self, cm, o, **over):
        X, Y, kw = self.kwargs(o)
        kw.update(over)
        cm.calibrate(X, Y, **kw)

    def observe(self, cm, X=None, calibrated=True):
        X = self.x(4, 777) if X is None else X
        o = {"name": cm.name, "what": world.describe(cm.model), "model": world.contents(cm.model), "pred": cmp.freeze(cm.model(X))}
        if calibrated:
            o["q"] = cmp.freeze(cm.get_qhat(self.alphas))
            o["q0"] = cmp.freeze(cm.get_qhat())
            y, iv = cm(X, alpha=self.alphas)
            o["y"], o["iv"] = cmp.freeze(y), cmp.freeze(iv)
            y, iv = cm(X)
            o["iv0"] = cmp.freeze(iv)
            o["u"] = cmp.freeze(cm.uncertainty_heuristic(X))
        else:
            try:
                cm.get_qhat()
                o["q"] = "calibrated"
            except ValueError:
                o["q"] = None
        return o


def scale(o):
    v = [float(np.max(np.abs(x))) for k in ("y", "iv") if k in o for x in cmp.leaves(o[k]) if x.size]
    return max([x for x in v if np.isfinite(x)], default=0.0)


def cdiff(a, b, rtol=None):
    for k in a:
        if k not in b:
            return f"{k} missing"
        if isinstance(a[k], (str, list, type(None))) and k in ("name", "what"):
            if a[k] != b[k]:
                return f"{k}: {a[k]} != {b[k]}"
            continue
        # (bounds are sums and differences of what may be much larger)
        atol = 0.0 if rtol is None else 4 * rtol * (1 + scale(a))
        d = cmp.diff(a[k], b[k], rtol=rtol, atol=atol)
        if d:
            return f"{k}: {d}"
    return None


def try_calibrate(cf, cm, o):
    """False where the library refuses a combination of options that a fresh
    object refuses as well."""
    try:
        cf.calibrate(cm, o)
        return True
    except (TypeError, ValueError):
        try:
            cf.calibrate(cf.new(), o)
        except (TypeError, ValueError):
            return False
        raise
