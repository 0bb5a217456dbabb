"""Modules that take part in simulated models.

They are ordinary modules built on the library's public base class, so the
library treats them like anybody's own modules; what they add is observability
(they echo the state and the random key they are given into the output) and
fault points.
"""
import jax
import jax.numpy as jnp
from parametricmatrixmodels.modules import BaseModule

# Fault points: name -> [calls to let pass, exception] ; see fire()
FAULTS = {}
# Called as RECORD(tag, training, calls, keydata) for modules with tag >= 0
RECORD = None
FIRED = []


class InjectedError(Exception):
    """Raised by simulated user code."""


def fire(point):
    f = FAULTS.get(point)
    if f is None:
        return
    if f[0] > 0:
        f[0] -= 1
        return
    del FAULTS[point]
    FIRED.append(point)
    raise f[1]


def _record(tag, training, calls, key):
    if RECORD is not None:
        RECORD(int(tag), bool(training), int(calls), tuple(int(k) for k in key.ravel()))


def width(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Echo(BaseModule):
    """Appends [number of training steps so far, a number in [0, 1) made from
    the random key] to each row, optionally adds noise to the row itself, and
    counts the training steps in its state."""

    __version__ = "0.0.0"

    def __init__(self, tag=-1, noise=0.0, append=True, touch=False, start=0):
        self.tag = tag
        self.start = start
        self.noise = noise
        self.append = append
        self.touch = touch  # returns a new (equal) state in evaluation mode
        self.shape = None
        self.calls = None

    @property
    def name(self):
        return f"Echo{self.tag}"

    def is_ready(self):
        return self.calls is not None

    def get_num_trainable_floats(self):
        return 0

    def compile(self, rng, input_shape, /):
        fire("echo.compile")
        if self.shape != input_shape or self.calls is None:
            self.shape = input_shape
            self.calls = jnp.asarray(self.start, dtype=jnp.float32)

    def get_output_shape(self, input_shape, /):
        if not self.append:
            return input_shape
        return tuple(input_shape[:-1]) + (input_shape[-1] + 2,)

    def get_params(self):
        return ()

    def set_params(self, params, /):
        fire("echo.set_params")

    def get_state(self):
        fire("echo.get_state")
        return self.calls

    def set_state(self, state, /):
        fire("echo.set_state")
        self.calls = state

    def get_hyperparameters(self):
        fire("echo.get_hyperparameters")
        return {
            "tag": self.tag,
            "noise": self.noise,
            "append": self.append,
            "touch": self.touch,
            "start": self.start,
            "shape": self.shape,
        }

    def set_hyperparameters(self, h, /):
        fire("echo.set_hyperparameters")
        self.tag = h["tag"]
        self.noise = h["noise"]
        self.append = h["append"]
        self.touch = h["touch"]
        self.start = h["start"]
        self.shape = h["shape"]

    def _get_callable(self):
        fire("echo.get_callable")
        tag, noise, append, touch = self.tag, self.noise, self.append, self.touch
        record = tag >= 0

        def echo(params, data, training, state, rng):
            fire("echo.trace")
            if record:
                jax.debug.callback(
                    _record, tag, training, state, jax.random.key_data(rng)
                )
            out = data
            if noise:
                out = out + noise * jax.random.normal(
                    rng, data.shape, dtype=jnp.float32
                ).astype(data.dtype)
            if append:
                n = data.shape[:-1] + (1,)
                u = jax.random.uniform(rng, (), dtype=jnp.float32)
                rdt = jnp.real(data).dtype
                cols = [
                    jnp.full(n, jnp.asarray(state, rdt)),
                    jnp.full(n, jnp.asarray(u, rdt)),
                ]
                out = jnp.concatenate(
                    [out] + [jax.lax.stop_gradient(c).astype(out.dtype) for c in cols],
                    axis=-1,
                )
            if training:
                new = state + 1
            elif touch:
                new = state + 0
            else:
                new = state
            return out, new

        return echo


class Merge(BaseModule):
    """Concatenates all leaves of its input, flattened, along the last axis."""

    __version__ = "0.0.0"

    def __init__(self):
        pass

    @property
    def name(self):
        return "Merge"

    def is_ready(self):
        return True

    def get_num_trainable_floats(self):
        return 0

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        ls = jax.tree.leaves(input_shape, is_leaf=lambda x: isinstance(x, tuple))
        return (sum(width(s) for s in ls),)

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def get_state(self):
        return ()

    def set_state(self, state, /):
        pass

    def get_hyperparameters(self):
        return {}

    def set_hyperparameters(self, h, /):
        pass

    def _get_callable(self):
        def merge(params, data, training, state, rng):
            ls = jax.tree.leaves(data)
            return (
                jnp.concatenate([x.reshape(x.shape[0], -1) for x in ls], axis=-1),
                state,
            )

        return merge


class Fan(BaseModule):
    """Turns one array into {"a": all columns, "b": [last column, first]}."""

    __version__ = "0.0.0"

    def __init__(self):
        pass

    @property
    def name(self):
        return "Fan"

    def is_ready(self):
        return True

    def get_num_trainable_floats(self):
        return 0

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return {"a": tuple(input_shape), "b": [(1,), (1,)]}

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def get_state(self):
        return ()

    def set_state(self, state, /):
        pass

    def get_hyperparameters(self):
        return {}

    def set_hyperparameters(self, h, /):
        pass

    def _get_callable(self):
        def fan(params, data, training, state, rng):
            return {"a": data, "b": [data[:, -1:], data[:, :1]]}, state

        return fan


class Scale(BaseModule):
    """A trainable scale per column; user-defined, with a non-array parameter
    structure (a dictionary holding a list)."""

    __version__ = "0.0.0"

    def __init__(self, value=1.5):
        self.value = value
        self.p = None

    @property
    def name(self):
        return "Scale"

    def is_ready(self):
        return self.p is not None

    def get_num_trainable_floats(self):
        return None if self.p is None else int(self.p["w"][0].size)

    def compile(self, rng, input_shape, /):
        fire("scale.compile")
        if self.p is None or self.p["w"][0].shape != (input_shape[-1],):
            self.p = {
                "w": [
                    self.value
                    + 0.1 * jax.random.normal(rng, (input_shape[-1],), dtype=jnp.float32)
                ]
            }

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_params(self):
        return jax.tree.map(lambda x: x, self.p)

    def set_params(self, params, /):
        fire("scale.set_params")
        self.p = jax.tree.map(lambda x: x, params)

    def get_state(self):
        return ()

    def set_state(self, state, /):
        pass

    def get_hyperparameters(self):
        return {"value": self.value}

    def set_hyperparameters(self, h, /):
        self.value = h["value"]

    def _get_callable(self):
        def scale(params, data, training, state, rng):
            return data * params["w"][0], state

        return scale


def mix_forward(p, data):
    z = data @ p["W"] + p["b"][0]
    if jnp.iscomplexobj(z):
        return jnp.tanh(jnp.real(z)) * p["s"].real + 0.5 * jnp.imag(z) ** 2 + p["s"].imag
    return jnp.tanh(z) * p["s"] + 0.1 * z


class Mix(BaseModule):
    """A small nonlinear map with real or complex parameters of several
    shapes, whose formula the reference optimizer knows too."""

    __version__ = "0.0.0"

    def __init__(self, k=1, cplx=False):
        self.k = k
        self.cplx = cplx
        self.p = None

    @property
    def name(self):
        return "Mix"

    def is_ready(self):
        return self.p is not None

    def get_num_trainable_floats(self):
        return None if self.p is None else sum(int(x.size) for x in jax.tree.leaves(self.p))

    def compile(self, rng, input_shape, /):
        w = input_shape[-1]
        if self.p is None or self.p["W"].shape[0] != w:
            dt = jnp.complex64 if self.cplx else jnp.float32
            a, b, c = jax.random.split(rng, 3)
            self.p = {
                "W": 0.6 * jax.random.normal(a, (w, self.k), dtype=dt),
                "b": [0.4 * jax.random.normal(b, (self.k,), dtype=dt)],
                "s": 1 + 0.3 * jax.random.normal(c, (), dtype=dt),
            }

    def get_output_shape(self, input_shape, /):
        return (self.k,)

    def get_params(self):
        return jax.tree.map(lambda x: x, self.p)

    def set_params(self, params, /):
        self.p = jax.tree.map(lambda x: x, params)

    def get_state(self):
        return ()

    def set_state(self, state, /):
        pass

    def get_hyperparameters(self):
        return {"k": self.k, "cplx": self.cplx}

    def set_hyperparameters(self, h, /):
        self.k, self.cplx = h["k"], h["cplx"]

    def _get_callable(self):
        def mix(params, data, training, state, rng):
            return mix_forward(params, data), state

        return mix


def reset():
    global RECORD
    FAULTS.clear()
    FIRED.clear()
    RECORD = None
