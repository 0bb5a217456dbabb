"""What each check is about, for the manifest and the evidence files."""
REAL = [
    "the package under test, from /repo's working tree",
    "JAX/XLA (CPU) tracing, compilation and execution",
    "numpy file formats, zip archives, pickle",
    "Python signal delivery",
]
STUB = [
    "clock (time.*)",
    "standard output",
    "global random state",
    "uuid source",
]
FILES = STUB + ["file access below a scratch directory (fault layer over real files)"]
COMMON = [
    "CPU backend, XLA with optimisation level 0",
    "user code (modules, losses, callbacks) is represented by recording stand-ins",
]
D = (
    "one run = one seed = one list of choices; distinct by the hash of the full event log "
    "(operations, options, observed values, injected faults); every run performs the operations under test; "
)
NOTE = (
    "Searches seeded executions of the real code, in quick about 65 s on 8 cores, in thorough ten minutes. "
    "No violation means none on the executions tried. Trusts JAX/XLA, numpy and the scenario's oracle: "
)


def p(rule, oracle, real=REAL, stub=STUB, assumptions=(), **kw):
    return dict(
        rule=D + rule, oracle=oracle, note=NOTE + oracle + ".", real=list(real),
        stub=list(stub), assumptions=COMMON + list(assumptions), **kw
    )


PROPS = {
    "P01": p("random model, data layout, loss script, stop cause, callback edits and signals",
             "an executable reference of the best-point rule over recorded histories"),
    "P02": p("random loss scripts with ties, near misses, infinities and NaN against epoch limit, target, patience and minimum improvement",
             "an executable reference of the stopping rules, with bounded-step liveness"),
    "P03": p("random sample counts, batch sizes, unrolling, data structures; batches identified by their contents",
             "exactly-once accounting of samples over recorded batches"),
    "P16": p("random nested and branching models of state- and key-recording modules, batch layouts, resumes, evaluation options",
             "exactly-once accounting of states and keys over recorded module calls"),
    "P17": p("random real and complex parameters, optimizer options, schedules, freezes, resumes and callback edits",
             "refinement against an executable reference optimizer replaying the recorded batches"),
    "P04": p("random set-ups with one to three signals of either kind at random moments (output writes, user code) of an epoch, random caller handlers",
             "comparison with an uninterrupted twin and bounded-step liveness"),
    "P07": p("random ways to cut a training history into pieces, with wasted epochs and process restarts from files in between",
             "refinement: pieces against the same history in one go", stub=FILES),
    "P05": p("random programs (compile, train, predict, resume, save and load, copy) with every seed given, run twice: once plainly, once under a perturbed clock, global random state, terminal, verbosity, earlier activity, or in a process with another hash seed",
             "bitwise comparison of twins (verbosity twins: keys and state bitwise, parameters to 1e-3)", stub=FILES),
    "P06": p("random sequences of freeze, unfreeze (methods and property, any depth), train, resume, save, load, copy, set and predict on nested models",
             "a model of who is frozen; bitwise comparison of frozen parameters, change of all others the prediction depends on", stub=FILES),
    "P08": p("random models over every module type and option, trained or not, conformalized models and scalers, saved to every kind of target (names, paths, open and in-memory files, over stale files) and loaded, up to three generations with edits in between",
             "bitwise comparison of everything observable before and after; resumed training of loaded and unsaved twin", stub=FILES),
    "P09": p("random saved objects of every kind; files cut, flipped, zeroed, with lost blocks, or left behind by saves that crash or fail at a random write (torn or not), over fresh or older files",
             "loading fails or gives an object with the digest of the saved (or the older) one", stub=FILES),
    "P10": p("random objects and operations (train, load, save, calibrate), with one to six failures each: exceptions of several kinds at random lines of the library, in user modules, losses and callbacks while tracing or running, in the output stream, in file access, by damaged, missing or foreign files, by signals and by bad data",
             "comparison of everything observable before and after the failure (all-or-nothing for failures at library lines), and of the repeated operation with a twin that never failed", stub=FILES),
    "P11": p("random models over every module type, random histories of evaluations with random batch limits and options, set, freeze, train, recompile, edit, load, copy and state updates, with evaluations in between",
             "comparison with a freshly built model given the same contents, evaluated in one piece; bitwise comparison of contents before and after evaluating", stub=FILES),
    "P12": p("two to four threads evaluating shared or own models, conformalized models, saving, loading and training, under a scheduler that may switch threads at every line of the library, in two runs of five also while JAX traces it; a thread may die at a random line",
             "each thread's results equal those it gets alone on a fresh model; bitwise comparison of the shared models", stub=FILES + ["thread scheduling (one thread at a time, switches chosen by the seed)"],
             share=True,
             assumptions=["in three runs of five, calls into JAX are atomic for the scheduler; in the others threads are switched inside JAX too, and waits for its locks are recognised by the process standing still"]),
    "P13": p("random histories over up to six models, copies, copied modules and models restored from snapshots, with up to five snapshots (parameters, state, serialized data) held: train, set, freeze, rename, edit, compile, reset, save and load, overwrite handed-out containers in place",
             "after every operation, bitwise comparison of all other models and all snapshots with their descriptions before; of copies with originals", stub=FILES),
    "P14": p("random histories over up to four models (list, tuple, dictionary containers; models sharing modules or containers, models inside models) of append, prepend, insert, remove, replace, concatenate, invalid edits and edits that fail at a random line of the library, with compile, train and predict in between",
             "a plain list, tuple or dictionary edited alike, compared module for module; prediction against applying the modules one by one"),
    "P15": p("random histories of fits (all scalers, data of different kinds and shapes), calibrations (random options), queries, saves and loads, changes of the model underneath, and attempts that fail at a random line, in user code or by bad data",
             "comparison of all results with a fresh object given only the last data and options", stub=FILES),
}
