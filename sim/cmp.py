"""Comparisons of what the library hands back.  Malformed values are reported
as differences, never as exceptions."""
import numpy as np
import jax
from .core import digest


def is_key(x):
    try:
        return jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key)
    except Exception:
        return False


def arr(x):
    if is_key(x):
        return np.asarray(jax.random.key_data(x))
    return np.asarray(x)


def freeze(tree):
    """A deep snapshot that shares nothing with the original."""
    return jax.tree.map(lambda x: np.array(arr(x), copy=True), tree)


def leaves(tree):
    return [arr(x) for x in jax.tree.leaves(tree)]


def struct(tree):
    return str(jax.tree.structure(tree))


def diff(a, b, rtol=None, atol=0.0, dtypes=True, structs=True):
    """None if equal (bitwise unless rtol is given), else a description."""
    try:
        if structs and struct(a) != struct(b):
            return f"structure {struct(a)} != {struct(b)}"
        la, lb = leaves(a), leaves(b)
        if len(la) != len(lb):
            return f"{len(la)} leaves != {len(lb)}"
        for i, (x, y) in enumerate(zip(la, lb)):
            if x.shape != y.shape:
                return f"leaf {i}: shape {x.shape} != {y.shape}"
            if dtypes and x.dtype != y.dtype:
                return f"leaf {i}: dtype {x.dtype} != {y.dtype}"
            if rtol is None:
                if x.dtype == y.dtype:
                    same = x.tobytes() == y.tobytes() or np.array_equal(
                        x, y, equal_nan=x.dtype.kind in "fc"
                    )
                else:
                    same = np.array_equal(x, y)
                if not same:
                    return f"leaf {i}: {short(x)} != {short(y)}"
            else:
                scale = float(np.max(np.abs(y))) if y.size else 0.0
                if not np.isfinite(scale):
                    scale = 1.0
                if not np.allclose(
                    x, y, rtol=rtol, atol=atol + rtol * scale, equal_nan=True
                ):
                    return f"leaf {i}: {short(x)} !~ {short(y)}"
        return None
    except Exception as e:  # malformed result
        return f"not comparable: {type(e).__name__}: {e}"


def short(x, n=6):
    x = np.asarray(x).ravel()
    s = np.array2string(x[:n], precision=9, threshold=n)
    return s + ("..." if x.size > n else "")


def tdigest(tree):
    return digest(
        struct(tree),
        *[(str(x.dtype), x.shape, x.tobytes()) for x in leaves(tree)],
    )
