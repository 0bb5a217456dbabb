"""Same seeds, same results."""
import atexit
import json
import os
import random
import subprocess
import sys

import numpy as np
import jax

import parametricmatrixmodels as pmm
from sim import cmp, seams, simmods, world
from sim.core import Discard
from sim.setup import Setup

_partner = None


def partner():
    """A second process with another hash seed, started once per worker."""
    global _partner
    if _partner is None or _partner.poll() is not None:
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(int(os.environ.get("PYTHONHASHSEED") or 0) + 1001)
        _partner = subprocess.Popen(
            [sys.executable, "-m", "sim.worker"], env=env, text=True,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
        )
        atexit.register(_partner.kill)
        assert json.loads(_partner.stdout.readline())["ready"]
    return _partner


def elsewhere(choices, tier):
    p = partner()
    p.stdin.write(json.dumps({"prop": "P05B", "choices": list(choices), "tier": tier, "events": True}) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


def key(kind, n):
    return n if kind == "int" else jax.random.key(n)


class Program:
    """A sequence of operations with every seed given."""

    def __init__(self, ctx):
        c = ctx
        self.s = s = Setup(
            c, opts={"depth": 1, "complex": c.chance(1, 4, "complex")}, max_n=6, allow_unsup=False,
            spec=lambda s, heads: world.gen_model(
                c, s.w, s.k, opts={"depth": 2, "pmm": c.chance(1, 3, "pmm"), "complex": c.chance(1, 4, "complex")},
                head=heads + [["echo", {"append": False, "noise": c.pick((0.0, 0.05), "noise")}]],
            ),
        )
        if s.ykind == "list":
            s.ykind = "array"
        self.kinds = [c.pick(("int", "key"), "seed kind") for _ in range(3)]
        self.seeds = [c.pick((0, 1, 7, 2**31), "seed") for _ in range(3)]
        self.ops = []
        if not c.chance(1, 4, "compile by train"):
            self.ops.append(("compile",))
            if c.chance(1, 2, "predict"):
                self.ops.append(("predict",))
        trains = 0
        for _ in range(c.between(1, 3, "ops")):
            op = c.weighted([("train", 5), ("predict", 2), ("resume", 2), ("reload", 1), ("copy", 1)], "op")
            if not self.ops and op != "train":
                continue
            if op == "resume" and not trains:
                op = "train"
            if op in ("train", "resume"):
                if trains >= 2:
                    continue
                trains += 1
                self.ops.append((op, c.between(1, 3, "epochs"), c.pick(("mse", "mae"), "loss"), c.chance(1, 2, "validate")))
            else:
                self.ops.append((op,))
        self.trains = trains
        c.ev("program", s.spec, self.kinds, self.seeds, self.ops)

    def run(self, path, verbose):
        """The results after every operation."""
        s = self.s
        out = []
        km, kc, kb = [key(k, n) for k, n in zip(self.kinds, self.seeds)]
        m = world.build(s.spec, rng=km)
        d = s.data()
        X, Y, Xv, Yv = d["X"], d["Y"], d["X_val"], d["Y_val"]
        for op in self.ops + [("predict",)]:
            if op[0] == "compile":
                m.compile(kc, world.shape_of(X))
            elif op[0] == "predict":
                if m.is_ready():
                    out.append(("predict", cmp.freeze(m(Xv)), None))
            elif op[0] in ("train", "resume"):
                val = {"X_val": Xv, "Y_val": Yv} if op[3] else {}
                if s.has_unc:
                    val["Y_unc"] = abs(d["Y_unc"]) + 0.5
                    if op[3]:
                        val["Y_val_unc"] = abs(d["Y_val_unc"]) + 0.5
                m.train(
                    X, Y, epochs=op[1], loss_fn=op[2] + ("_unc" if s.has_unc else ""), resume=op[0] == "resume",
                    batch_size=s.bs, val_batch_size=s.vbs if op[3] else 0, unroll=s.unroll, lr=s.lr,
                    initialization_seed=kc, batch_rng=kb, verbose=verbose, **val,
                )
            elif op[0] == "reload":
                if not m.is_ready():
                    continue
                m.save(path)
                m = pmm.SequentialModel.from_file(path)
            elif op[0] == "copy":
                m = m.copy()
            if m.is_ready():
                o = world.contents(m)
                out.append((op[0], o["params"], [o["state"], o["rng"]]))
        return out


def differ(a, b, exact):
    if len(a) != len(b):
        return f"{len(a)} results, {len(b)} results"
    for i, (x, y) in enumerate(zip(a, b)):
        d = cmp.diff(x[1], y[1], rtol=None if exact else 1e-3, atol=0.0 if exact else 1e-5) or (
            x[2] is not None and cmp.diff(x[2], y[2])) or None
        if d:
            return f"after operation {i} ({x[0]}): {d}"
    return None


def digests(out):
    return ["/".join([x[0], cmp.tdigest(x[1])[:6], cmp.tdigest(x[2])[:6]]) for x in out]


def activity(ctx, s):
    """Something else going on in the process before."""
    n = ctx.draw(4, "activity")
    if n == 1:
        for _ in range(ctx.between(1, 3, "models")):
            m = pmm.SequentialModel([pmm.modules.LinearNN(out_features=1)])
            m.compile(None, (2,))
    elif n == 2:
        m = s.model()
        m(s.data()["X"])
        m.set_state(m.get_state())
    elif n == 3:
        random.random(), np.random.rand()
        m = s.model()
        d = s.data()
        m.train(d["X"], d["Y"], epochs=1, verbose=ctx.chance(1, 2, "v"))
    ctx.fault(("none", "other-models", "same-model", "other-training")[n])


def perturbed(ctx, prog, verbose):
    clock = ctx.pick(seams.Clock.MODES, "clock")
    ambient = ctx.draw(100, "ambient")
    old = os.environ.get("COLUMNS")
    cols = ctx.pick((None, "1", "0", "300"), "columns")
    if clock != "steady":
        ctx.fault("clock-" + clock)
    ctx.fault("ambient-random")
    if cols is not None:
        ctx.fault("terminal-size")
        os.environ["COLUMNS"] = cols
    try:
        with seams.Env(ctx, clock=clock, seed=ambient) as env:
            env.out._isatty = ctx.chance(1, 2, "tty")
            fs = env.files()
            activity(ctx, prog.s)
            random.seed(ambient + 1)
            np.random.seed(ambient + 2)
            return prog.run(fs.root + "/m.npz", verbose)
    finally:
        if cols is not None:
            os.environ.pop("COLUMNS", None)
            if old is not None:
                os.environ["COLUMNS"] = old


def run(ctx):
    prog = Program(ctx)
    mine = list(ctx.choices)
    with seams.Env(ctx, seed=1) as env:
        fs = env.files()
        a = prog.run(fs.root + "/m.npz", False)
    ctx.ev("results", digests(a))
    ctx.count("operations", len(prog.ops))
    ctx.cover("ops", *[o[0] for o in prog.ops])
    how = ctx.weighted([("same", 3), ("verbose", 2), ("process", 2)], "twin")
    ctx.cover("twin", how)
    if how == "process":
        r = elsewhere(mine, ctx.tier)
        ctx.fault("other-process")
        if r["status"] != "ok":
            ctx.fail("other-process-failed", f"{r['status']}: {r.get('msg')}")
        d = [e for e in r["events"] if e.startswith("('results'")][-1]
        ctx.check(d == repr(("results", digests(a))), "differs-between-processes",
                  lambda: f"{digests(a)} here, {d} in a process with another hash seed")
        return
    b = perturbed(ctx, prog, how == "verbose")
    ctx.check(not differ(a, b, how == "same"), "not-reproducible",
              lambda: f"{differ(a, b, how == 'same')} (twin: {how})")
