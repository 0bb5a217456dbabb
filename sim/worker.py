"""A worker process: runs scenario jobs given as JSON lines on stdin."""
import importlib
import json
import os
import resource
import sys
import time
import traceback

REAL_MONO = time.monotonic
REPO = os.environ.get("PMM_REPO", "/repo")


def blame(tb):
    """Does the traceback pass through the code under test?"""
    pkg = os.path.join(REPO, "parametricmatrixmodels") + os.sep
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(pkg):
            return True
    return False


def chain_blame(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if e.__traceback__ is not None and blame(e.__traceback__):
            return True
        e = e.__cause__ or e.__context__
    return False


def run_job(job):
    from sim import core, seams, simmods

    mod = importlib.import_module("scenarios." + job["prop"].lower())
    ctx = core.Ctx(
        seed=job.get("seed"), choices=job.get("choices"), tier=job.get("tier", "quick")
    )
    t0 = REAL_MONO()
    res = {"status": "ok"}
    simmods.reset()
    try:
        mod.run(ctx)
    except core.Violation as v:
        res = {"status": "violation", "kind": v.kind, "msg": v.msg}
    except core.Discard as d:
        res = {"status": "discard", "msg": str(d)}
    except core.BudgetExceeded as d:
        res = {"status": "discard", "msg": str(d)}
    except (Exception, KeyboardInterrupt, seams.SimCrash) as e:
        text = "".join(traceback.format_exception(e))[-3000:]
        if chain_blame(e):
            res = {
                "status": "violation",
                "kind": "unexpected-" + type(e).__name__,
                "msg": f"{type(e).__name__}: {str(e)[:600]}",
                "trace": text,
            }
        else:
            res = {"status": "error", "msg": text}
    finally:
        seams.default_signals()
        simmods.reset()
    res.update(
        choices=ctx.choices,
        labels=ctx.labels,
        loghash=ctx.loghash(),
        faults=ctx.faults,
        cov=sorted(ctx.cov),
        stats=ctx.stats,
        events=ctx.events if job.get("events") else ctx.events[:40],
        wall=REAL_MONO() - t0,
        job=job.get("id"),
        rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024,
    )
    return res


def mappings():
    """Compiled programs hold memory mappings, whose number is limited."""
    try:
        with open("/proc/self/maps", "rb") as f:
            return f.read().count(b"\n")
    except OSError:
        return 0


def main():
    core_id = os.environ.get("PMM_SIM_CORE")
    if core_id:
        try:
            os.sched_setaffinity(0, {int(core_id)})
        except OSError:
            pass
    proto_out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import jax

    jax.config.update("jax_enable_x64", os.environ.get("PMM_SIM_X64") == "1")
    import parametricmatrixmodels

    where = os.path.dirname(os.path.abspath(parametricmatrixmodels.__file__))
    assert where == os.path.join(REPO, "parametricmatrixmodels"), where
    proto_out.write(json.dumps({"ready": True}) + "\n")
    proto_out.flush()
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        if job.get("quit"):
            break
        res = run_job(job)
        proto_out.write(json.dumps(res) + "\n")
        proto_out.flush()
        n += 1
        if n % 40 == 0 or mappings() > 25000:
            jax.clear_caches()


if __name__ == "__main__":
    main()
