"""Every kind of module the library offers, with its options, as plain data:
[list of module specs, input shape].  A spec ["mod", class, kwargs] is built
by world.build_module; an array argument is ["arr", seed, shape, complex]."""
import inspect

import numpy as np
import jax
import jax.numpy as jnp

from parametricmatrixmodels import modules as M


def arr(a):
    _, seed, shape, cplx = a
    r = np.random.RandomState(seed)
    x = r.uniform(-1, 1, tuple(shape)).astype(np.float32)
    if cplx:
        x = (x + 1j * r.uniform(-1, 1, tuple(shape))).astype(np.complex64)
    return jnp.asarray(x)


def herm(a):
    x = arr(["arr", a[1], a[2], True])
    return (x + jnp.conj(jnp.swapaxes(x, -1, -2))) / 2


def value(v):
    if isinstance(v, list) and v and v[0] == "arr":
        return arr(v)
    if isinstance(v, list) and v and v[0] == "herm":
        return herm(v)
    if isinstance(v, list) and v and v[0] == "tup":
        return tuple(value(x) for x in v[1:])
    if isinstance(v, list) and v and v[0] == "list":
        return [value(x) for x in v[1:]]
    if isinstance(v, list) and v and v[0] == "mod":
        return make(v)
    if isinstance(v, dict):
        return {k: value(x) for k, x in v.items()}
    return v


def make(s):
    args = [value(x) for x in (s[3] if len(s) > 3 else [])]
    return getattr(M, s[1])(*args, **{k: value(x) for k, x in s[2].items()})


def activations():
    from parametricmatrixmodels.modules import _autogenerated_activationfuncs as A

    out = []
    for n, c in sorted(vars(A).items()):
        if inspect.isclass(c) and c.__module__ == A.__name__ and n not in NOT:
            out.append(n)
    return out


# not functions of one real array that keep its shape
NOT = {"AMax", "AMin", "ArcTan2", "FloatPower", "FloorDivide", "FrExp", "GLU", "Invert", "LDExp", "LogSumExp",
       "NextAfter", "OneHot", "Packbits", "Piecewise", "Signbit", "Unpackbits"}
# activations with an argument of their own
POS = {"Pow": [2.0], "Power": [3.0], "LeakyReLU": [0.4]}
ARGS = {"LeakyReLU": {"negative_slope": 0.3}, "ELU": {"alpha": 0.7}, "CELU": {"alpha": 1.3}, "GELU": {"approximate": False}}


def gen_act(ctx):
    names = activations()
    n = ctx.pick(names, "activation")
    how = ctx.draw(3, "with argument")
    if n in ("Pow", "Power") or (n in POS and how == 1):
        return ["mod", n, {}, list(POS[n])]
    if n in ARGS and how:
        return ["mod", n, dict(ARGS[n])]
    return ["mod", n, {}]


def mod(cls_, **kw):
    return ["mod", cls_, {k: v for k, v in kw.items() if v is not None}]


def gen(ctx, trainable_only=False):
    """-> (specs, input shape, output kind) ; input shapes are nested
    containers of tuples."""
    c = ctx
    b = lambda label: c.cycle((False, True), label) if label == "given" else c.chance(1, 2, label)  # noqa: E731
    smooth = c.pick((None, 1.0, 0.3), "smoothing")
    which = c.pick(("SA", "LA", "SM", "LM", "EA", "IM"), "which")
    kinds = ["aepmm", "hermitian", "lowrank", "observable", "tensor", "bias", "constant", "einsum", "linear", "matmul",
             "prelu", "activation", "reshape", "flatten", "treeflatten", "treekey", "concat", "eigensystem", "expectation",
             "transition", "einsum fixed", "pytree bias", "branching", "branching", "comment"]
    t = c.cycle(kinds, "kind")
    w = c.between(1, 3, "inputs")
    c.cover("module", t)
    if t == "aepmm":
        if b("given"):
            s = [mod("AffineEigenvaluePMM", matrix_size=3, Ms=["herm", c.draw(99, "a"), [w + 1, 3, 3]], num_eig=c.between(1, 3, "eig"), which=which)]
        else:
            s = [mod("AffineEigenvaluePMM", matrix_size=3, num_eig=c.between(1, 3, "eig"), which=which, smoothing=smooth,
                     init_magnitude=0.5, bias_term=b("no bias"))]
        return s, (w,)
    if t in ("hermitian", "lowrank"):
        if t == "hermitian":
            s = [mod("AffineHermitianMatrix", matrix_size=3, smoothing=smooth, init_magnitude=0.5, bias_term=b("bias"))]
        else:
            s = [mod("LowRankAffineHermitianMatrix", matrix_size=4, matrix_rank=c.between(1, 3, "rank"), smoothing=smooth,
                     init_magnitude=0.7, bias_term=b("bias"))]
        s.append(mod("Eigenvalues", num_eig=c.between(1, 3, "eig"), which=which))
        return s, (w,)
    if t == "eigensystem":
        s = [mod("AffineHermitianMatrix", matrix_size=3, init_magnitude=0.5), mod("Eigensystem", num_eig=2, which=which),
             mod("TreeKey", keypaths="eigenvalues")]
        return s, (w,)
    if t in ("expectation", "transition"):
        n = "ExpectationValueSum" if t == "expectation" else "TransitionAmplitudeSum"
        s = [mod("AffineHermitianMatrix", matrix_size=3, init_magnitude=0.5), mod("Eigenvectors", num_eig=c.between(1, 2, "eig"), which=which),
             mod(n, num_observables=c.between(1, 2, "obs"), output_size=c.between(1, 2, "out"), init_magnitude=0.5, centered=b("centered"))]
        return s, (w,)
    if t == "observable":
        s = [mod("AffineObservablePMM", matrix_size=3, num_eig=2, which=which, smoothing=smooth, affine_bias_matrix=b("bias matrix"),
                 num_secondaries=c.between(1, 2, "secondaries"), output_size=c.between(1, 2, "out"), centered=b("centered"),
                 bias_term=b("bias"), use_expectation_values=b("expectation"), init_magnitude=0.4)]
        return s, (w,)
    if t == "tensor":
        if b("given"):
            s = [mod("AffineTensor", Ms=["arr", c.draw(99, "a"), [w + 1, 2, 3], b("complex")])]
        else:
            s = [mod("AffineTensor", tensor_shape=["tup", 2, 3], bias_term=b("bias"), real=b("real"), init_magnitude=0.5)]
        return s, (w,)
    if t == "bias":
        cplx = b("complex")
        if b("given"):
            s = [mod("Bias", bias=["arr", c.draw(99, "a"), [w], cplx], real=not cplx, trainable=b("trainable"))]
        else:
            s = [mod("Bias", init_magnitude=0.5, real=not cplx, scalar=b("scalar"))]
        return s, (w,)
    if t == "pytree bias":
        return [mod("Bias", init_magnitude=0.5)], {"p": (w,), "q": [(2,)]}
    if t == "constant":
        if b("given"):
            s = [mod("Constant", constant={"u": ["arr", c.draw(99, "a"), [2], False], "v": ["arr", 3, [2, 2], b("complex")]},
                     trainable=b("trainable"), name="C1")]
        else:
            s = [mod("Constant", shape=["tup", 2], trainable=True, init_magnitude=0.5, real=b("real"))]
        return s, (w,)
    if t == "einsum":
        e = c.pick(("ij,j->i", ["tup", "ij", "j", "i"]), "einsum")
        dm = {"i": 2}
        s = [mod("Einsum", einsum_str=e, dim_map=dm, trainable=True, init_magnitude=0.5, real=b("real"))]
        return s, (w,)
    if t == "einsum fixed":
        s = [mod("Einsum", einsum_str="ij,j->i", params=["arr", c.draw(99, "a"), [2, w], False], trainable=b("trainable"))]
        return s, (w,)
    if t == "linear":
        s = [mod("LinearNN", out_features=c.between(1, 3, "out"), bias=b("bias"), init_magnitude=0.5, real=b("real"))]
        if s[0][2]["real"] and b("activation"):
            s[0][2]["activation"] = ["mod", "Tanh", {}]
        return s, (w,)
    if t == "matmul":
        if b("given"):
            s = [mod("MatMul", params=["arr", c.draw(99, "a"), [2, w], False], trainable=b("trainable"))]
        else:
            s = [mod("MatMul", output_shape=2, trainable=True, init_magnitude=0.5, real=b("real"))]
        return s, (w,)
    if t == "prelu":
        s = [mod("PReLU", single_parameter=b("single"), init_magnitude=0.5)]
        return s, (w,)
    if t == "activation":
        return [gen_act(c)], (2 * w,)
    if t == "reshape":
        return [mod("Reshape", shape=["tup", 2, w])], (2 * w,)
    if t == "flatten":
        return [mod("Flatten")], c.pick(((2, w), {"p": (2, w), "q": [(w,)]}), "in")
    if t == "treeflatten":
        return [mod("TreeFlatten")], {"p": (w,), "q": [(2,), (w,)]}
    if t == "treekey":
        sep = c.pick((".", "/"), "separator")
        kp = c.pick(({"a": f"q{sep}0", "b": "p"}, f"q{sep}1", ["tup", f"q{sep}0", "p"]), "keypaths")
        return [mod("TreeKey", keypaths=kp, separator=sep)], {"p": (w,), "q": [(2,), (w,)]}
    if t == "concat":
        sep = c.pick((".", "/"), "separator")
        order = c.pick((None, ["list", f"q{sep}1", "p"], ["tup", "p", f"q{sep}1", f"q{sep}0"]), "order")
        axis = c.pick((None, 0), "axis")
        return [mod("ConcatenateLeaves", axis=axis, path_order=order, separator=sep)], {"p": (w,), "q": [(2,), (w,)]}
    if t == "comment":
        return [mod("Comment", comment=c.pick(("a note", "", "\u03bb\n/x.y"), "text")), mod("LinearNN", out_features=2, init_magnitude=0.5)], (w,)
    if t == "branching":
        return gen_branching(c, w)
    raise AssertionError(t)


def gen_branching(c, w):
    """A branching model, its wires given in one of the documented ways."""
    sep = c.pick((".", "/", "->", "."), "separator")
    j = sep.join
    lin = lambda n: mod("LinearNN", out_features=n, init_magnitude=0.5)  # noqa: E731
    how = c.cycle(("blocks", "list", "in and out", "fan", "tree wires", "skip", "mixed"), "wires")
    name = c.pick((None, "named"), "model name")
    shape = (w,)
    if how == "blocks":
        mods = {"one": [lin(2), mod("Tanh")], "two": {"x": lin(3)}}
        conn = {"input": j(("one", "0")), j(("one", "0")): j(("one", "1")), j(("one", "1")): j(("two", "x")), j(("two", "x")): "output"}
    elif how == "list":
        mods = [lin(2), mod("Sigmoid"), mod("Bias", init_magnitude=0.5)]
        conn = {"2": "output", "1": ["2"], "input": "0", "0": "1"}
    elif how == "in and out":
        shape = {"x1": (w,), "x2": (2,)}
        mods = {"a": lin(2), "b": mod("Tanh")}
        conn = {j(("input", "x1")): "a", "a": "b", "b": j(("output", "1")), j(("input", "x2")): j(("output", "0"))}
    elif how == "fan":
        mods = {"b": lin(2), "a": lin(1), "z": mod("Tanh"), "c": mod("ConcatenateLeaves")}
        conn = {"input": ["a", "b", "z"], "a": j(("c", "0")), "b": j(("c", "2")), "z": j(("c", "1")), "c": "output"}
    elif how == "tree wires":
        # pieces of a tree go to pieces of another
        mods = {"a": lin(2), "b": lin(1), "k": mod("TreeKey", keypaths={"u": "q", "v": "p"}), "c": mod("ConcatenateLeaves")}
        conn = {"input": ["a", "b"], "a": j(("k", "p")), "b": j(("k", "q")), j(("k", "u")): j(("c", "1")),
                j(("k", "v")): j(("c", "0")), "c": "output"}
    else:
        mods = {"a": lin(2), "n": {"b": lin(2), "t": mod("Tanh")}, "s": mod("Flatten")}
        conn = {"input": "a", "a": [j(("n", "b")), j(("s", "skip"))], j(("n", "b")): j(("n", "t")), j(("n", "t")): j(("s", "body")), "s": "output"}
    if how == "mixed":
        # pieces without a name next to named ones
        mods = {"b": lin(2), "a": lin(1), "c": mod("ConcatenateLeaves"), "d": mod("Tanh")}
        conn = {"input": ["a", "b", j(("c", "x"))], "a": "c", "b": c.pick(("c", j(("c", "y"))), "b"), "c": ["d", "output"], "d": j(("output", "d"))}
    c.cover("wires", how)
    return [["nonseq", mods, conn, sep, name]], shape


def data(shape, n, seed):
    """Input data for an input shape."""
    r = np.random.RandomState(seed)

    def leaf(s):
        return jnp.asarray(r.uniform(-1, 1, (n,) + tuple(s)).astype(np.float32))

    return jax.tree.map(leaf, shape, is_leaf=lambda x: isinstance(x, tuple))
