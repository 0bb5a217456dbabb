"""The other process of P05."""
from scenarios import p05
from sim import seams


def run(ctx):
    prog = p05.Program(ctx)
    with seams.Env(ctx, seed=77, clock="jumpy") as env:
        fs = env.files()
        ctx.ev("results", p05.digests(prog.run(fs.root + "/m.npz", False)))
