"""The known finding of P14: modules held in a dictionary are applied in the
order of their keys, not in the order of the dictionary."""
import jax

import parametricmatrixmodels as pmm
from sim import cmp, seams, simmods, zoo
from parametricmatrixmodels import modules as M


def run(ctx):
    with seams.Env(ctx, seed=0):
        m = pmm.SequentialModel({"b": simmods.Scale(2.0), "a": M.Tanh()}, rng=1)
        m.compile(1, (2,))
        X = zoo.data((2,), 3, 1)
        D = X
        for x in m.get_modules().values():
            D, _ = x(D, state=x.get_state(), rng=jax.random.key(0))
        d = cmp.diff(cmp.freeze(m(X)), cmp.freeze(D), rtol=1e-5, dtypes=False)
        ctx.check(d is None, "dictionary-order", lambda: f"modules of a dictionary are applied in the order of their keys: {d}")
