"""Writes /verif/properties.jsonl (kept as a script so that the wording has one home)."""
import json, os
T = "parametricmatrixmodels/training.py"
M = "parametricmatrixmodels/model.py"
MU = "parametricmatrixmodels/model_util.py"
SEQ = "parametricmatrixmodels/sequentialmodel.py"
NSEQ = "parametricmatrixmodels/nonsequentialmodel.py"
BM = "parametricmatrixmodels/modules/basemodule.py"
CM = "parametricmatrixmodels/conformal/conformalizedmodel.py"
SC = "parametricmatrixmodels/preprocessing/scaler.py"
PB = "parametricmatrixmodels/progressbar.py"
TU = "parametricmatrixmodels/tree_util.py"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x, "meaning": x, "where": files[0]} for x in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Training hands back the best validated point",
 "When training ends, the model holds exactly the parameters, module state and random key of the point with the lowest validation loss among the starting point and every epoch that was validated, the earliest one on ties. This is so however the losses move afterwards, whichever rule or signal ended the run, and whatever a user callback did to the parameters after they were validated.",
 ["histories", "fault_sequences", "inputs"], "every sequence of validation losses (ties, infinities, late NaNs), stop cause, batch layout, callback edit and model shape",
 "The few training tests look at the final loss only; which epoch is handed back depends on the whole history of losses and on what happens after the best one.",
 [T, M], [("best-so-far bookkeeping of the epoch loop", T + ":_train"), ("results written back to the model", M + ":Model.train")],
 ["best parameters / state / key carried through the epoch loop"], ["parameters, state, key and predictions of the model after train()"])
prop("P02", "Training stops exactly when its rules say",
 "Training runs epoch after epoch until the first of these holds, and not one epoch fewer or more: the requested number of epochs is done; the best validation loss so far is at or below the target; or the given patience of consecutive epochs has passed in none of which the validation loss was lower than or equal to the previous best minus the minimum improvement. A validation loss that is not a number never counts as an improvement, and training always ends.",
 ["histories", "configurations", "fault_sequences"], "every sequence of validation losses (after a numeric start), epoch limit, target, patience and minimum improvement",
 "A test fixes one loss curve; early stopping is a state machine over the whole curve.",
 [T], [("loop condition and patience counter", T + ":_train")], ["patience counter, best loss"], ["number of epochs seen by the user callback and the training loss"])
prop("P03", "Each epoch uses every sample exactly once, intact",
 "In every training epoch each training sample takes part in exactly one update, together with its own target and its own uncertainty, in batches of the requested size with only the last one smaller, and in an order drawn afresh each epoch. Every validation pass likewise sees every validation sample exactly once with its own target and uncertainty, in batches of the requested validation size.",
 ["histories", "configurations", "inputs"], "every number of samples, batch size, validation batch size, loop unrolling, data structure (several input or target arrays) and epoch",
 "Losing the remainder, repeating a row or pairing inputs and targets of different rows still lowers the loss in a test.",
 [T, TU], [("shuffling and batching", T + ":_train"), ("permutation and slicing of leaves", TU + ":random_permute_leaves, batch_leaves")], None, ["data handed to the user's loss function"])
prop("P04", "Signals stop verbose training cleanly",
 "During verbose training the first interrupt or termination signal lets the running epoch finish and then ends training with the same result as if only that many epochs had been requested. A second one aborts training with an error and leaves the model as it was before training, and in every case the signal handlers of the caller are back in place when training is over.",
 ["fault_sequences", "schedules"], "every arrival point of one, two or more signals of either kind during an epoch, any caller handlers",
 "No test sends a signal; the outcome depends on the instant of delivery.",
 [T, M], [("signal flag and loop condition", T + ":GracefulKiller"), ("write-back only after success", M + ":Model.train")], ["kill flag"], ["result of train(), installed handlers"])
prop("P05", "Same seeds, same results",
 "With the seeds given explicitly, compiling, training and predicting give bit-for-bit the same parameters, state, random key and predictions every time. They do not depend on the global random state, hash randomisation, the clock, how much progress is printed or where it goes, or on what other models the process handled before.",
 ["schedules", "histories", "fault_sequences", "configurations"], "every perturbation of ambient nondeterminism: clock jumps and standstills, global random state, interpreter hash seed, verbosity, output stream, earlier activity",
 "A test runs in one process under one ambient state.",
 [T, M, PB, SEQ, NSEQ], [("explicit keys everywhere", T + ":train"), ("progress output", PB + ":ProgressBar"), ("default keys", M + ":Model.__init__")], None, ["results of compile, train and predict"])
prop("P06", "Frozen parameters never change, the others train",
 "Parameters of a frozen module, at any depth of nested models, stay bit-for-bit the same through training, resuming, saving and loading until it is unfrozen or they are set explicitly, while the parameters of every other module that the loss depends on keep training. Freezing or unfreezing by itself changes neither parameters nor predictions.",
 ["histories", "configurations"], "every sequence of freeze, unfreeze, train, resume, save, load, copy and predict, on nested models of any structure",
 "Tests freeze one top-level module once; the flags pass through every later operation.",
 [M, T, BM], [("trainable flags", M + ":Model.train"), ("update of trainable parameters only", T + ":_train_step"), ("freeze and unfreeze", BM + ":BaseModule.freeze")], ["trainable flags"], ["parameters after train()"])
prop("P07", "Resumed training carries on where it left off",
 "Resuming continues with the optimizer memory and the position in the learning-rate schedule that belong to the returned parameters, so that with full batches and steadily improving validation loss training in several pieces gives the same parameters as training in one go. It makes no difference whether the process was ended in between and the model came back from a file.",
 ["histories", "crash_points"], "every way to cut a training history into pieces, with restarts from a saved file at the cuts, real and complex parameters, any schedule",
 "Tests resume once and only check that the loss does not explode.",
 [T, M], [("optimizer state in and out", T + ":train"), ("epoch counter of the optimizer", T + ":increment_epoch"), ("optimizer state in saved files", M + ":Model.serialize")], ["optimizer moments and epoch counter"], ["parameters after each piece, learning rates asked of the user's schedule"])
prop("P08", "What is saved is what comes back",
 "A model, conformalized model or scaler loaded from what was saved behaves identically to the one saved: same structure, names, parameters, state, random key, frozen flags, optimizer memory and predictions, and same prediction intervals or transformed data. This holds for compressed and uncompressed files, for names given as text or path objects with or without suffix, for open and in-memory files, and after any number of save and load generations.",
 ["histories", "configurations", "inputs"], "every model structure, history before saving, kind of target and number of generations",
 "Tests save a handful of freshly built models; structure, history and kind of file multiply.",
 [M, CM, SC, BM, TU], [("serialization", M + ":Model.serialize, Model.deserialize"), ("conformal serialization", CM + ":ConformalizedModel.serialize"), ("scaler serialization", SC + ":Scaler.save, Scaler.load"), ("module serialization", BM + ":BaseModule.serialize")], None, ["observable state of original and loaded object"])
prop("P09", "A damaged file never loads as a different model",
 "Loading a file that was cut short at any byte, was written by a save that failed or died midway, or has a damaged byte, either fails with an error or gives the model that was saved. It never gives a model with other parameters, state or predictions.",
 ["crash_points", "fault_sequences"], "every truncation point, failed or lost write during saving, and flipped byte",
 "Crash points and media damage do not occur in tests.",
 [M, CM, SC], [("single archive with checksums", M + ":Model.save, Model.load"), ("conformal files", CM + ":ConformalizedModel.from_file")], None, ["outcome of load()"])
prop("P10", "A failed operation leaves things as they were",
 "When training, calibration, loading or saving fails partway, because of an exception in user code, an unwritable output stream, memory or disk exhaustion or an abort by signal, the error reaches the caller and the object behaves exactly as before the call: same parameters, state, random key, optimizer memory, calibration and predictions. The same operation can then be repeated and gives the result it would have given without the failure.",
 ["fault_sequences", "crash_points"], "every point at which user code, output, file access or a signal can fail during train, calibrate, load or save",
 "Tests never inject failures.",
 [M, T, CM, MU], [("write-back after success", M + ":Model.train"), ("restoring attributes", MU + ":unchanged_on_failure"), ("calibration", CM + ":ConformalizedModel.calibrate")], None, ["observable state before and after the failed call"])
prop("P11", "Predictions depend only on the model's current contents",
 "Predictions and gradients are determined by the current parameters, state, random key and input: whatever was computed, trained, frozen, loaded or recompiled before, they equal those of a freshly built model with the same contents. They do not depend on how the input is split into batches, and computing them changes nothing in the model unless asked to.",
 ["histories", "configurations"], "every sequence of operations before the evaluation and every batch limit and evaluation option",
 "Caches of compiled functions make results depend on history; tests evaluate fresh models.",
 [M, MU, SEQ, NSEQ], [("cached compiled functions", M + ":Model.__call__"), ("batching", MU + ":autobatch"), ("forward pass", SEQ + ":SequentialModel._get_callable")], ["cached callables and their options"], ["results of predict, grad_input and grad_params"])
prop("P12", "Concurrent callers do not disturb each other",
 "Threads that evaluate models at the same time, the same model with different inputs and options or different models, each get the result they would get alone, and training one model in one thread does not disturb others.",
 ["schedules"], "every interleaving of evaluating threads",
 "Tests are single-threaded and a race needs a particular interleaving.",
 [M, MU, T], [("cached compiled functions", M + ":Model.__call__"), ("signal handling off the main thread", T + ":GracefulKiller")], ["cached callables and their options"], ["results per thread"])
prop("P13", "Copies and snapshots stand alone",
 "A copy of a model or module, and parameters, state or serialized data taken from it, do not change when the original is trained, edited, loaded or frozen later, nor does the original change through them. Right after copying, the copy behaves like the original. The same holds for serialized data of scalers and conformalized models, which later fits, calibrations and queries leave alone, and for objects made from it.",
 ["histories"], "every interleaving of operations on original, copies and snapshots",
 "Aliasing shows only when both sides are used afterwards.",
 [BM, M], [("copy by serialization", BM + ":BaseModule.copy"), ("serialization", M + ":Model.serialize")], None, ["observable state of both sides"])
prop("P14", "Editing the module list behaves like editing a list",
 "Inserting, appending, prepending, replacing, removing or concatenating modules gives the module order that the same edit of a plain list, tuple or dictionary would give, hands back the removed module itself, and leaves all other models alone. An edited model must be compiled again before use and then computes the composition of its modules in the edited order.",
 ["histories"], "every sequence of edits, interleaved with compile, train and predict",
 "Tests make one or two edits on fresh models.",
 [M, SEQ], [("edit methods", M + ":Model.insert_module, Model.pop_module_by_index, Model.__setitem__, Model.__add__"), ("reset of compiled functions", M + ":Model.reset")], ["module container"], ["module order, predictions after recompilation"])
prop("P15", "Only the latest calibration or fit counts",
 "After recalibrating a conformalized model or refitting a scaler, all its results are those of a fresh one calibrated or fitted with that data and those options only. Nothing of earlier calibrations, fits or queries remains, and a failed attempt in between leaves no trace.",
 ["histories", "fault_sequences"], "every sequence of calibrations, fits, queries and failed attempts with different data and options",
 "Tests calibrate or fit once.",
 [CM, "parametricmatrixmodels/preprocessing/mixed_scaler.py", "parametricmatrixmodels/preprocessing/standard_scaler.py", "parametricmatrixmodels/preprocessing/minmax_scaler.py", "parametricmatrixmodels/preprocessing/robust_scaler.py", "parametricmatrixmodels/preprocessing/onehot.py"],
 [("calibration state and cached quantiles", CM + ":ConformalizedModel.calibrate, get_qhat"), ("fit methods", SC + ":Scaler.fit")], ["scores, quantile cache, fitted statistics"], ["intervals, quantiles, transformed data"])
prop("P16", "State and randomness advance once per training step",
 "Each training step hands every module the state left by the step before and a random key that no other step and no other module gets, in nested and branching models alike. Validation and prediction use the current state and key without advancing them.",
 ["histories", "configurations"], "every model structure, batch layout, number of epochs and resume",
 "Reused keys and dropped or doubled state updates do not show in a loss value.",
 [T, SEQ, NSEQ, M], [("key splitting and state threading", T + ":_train_step"), ("per-module keys", SEQ + ":SequentialModel._get_callable"), ("branching models", NSEQ + ":NonSequentialModel._get_callable")], ["module state, random key"], ["what user modules see during training"])
prop("P17", "Every update is the documented optimizer step",
 "The parameters after each epoch are those of Adam with the given learning rate or schedule, decay rates, epsilon and clipping, applied batch by batch to the gradients of the loss, with schedule position and bias correction advancing once per epoch, for real and complex parameters. What a user callback returns as parameters or random key is what the following epoch uses.",
 ["histories", "configurations"], "every sequence of batches, epochs, callback edits, freezes and resumes",
 "A wrong step still lowers the loss; only the whole trajectory shows it.",
 [T], [("optimizer steps", T + ":adam, complex_adam"), ("epoch loop and callback", T + ":_train")], ["optimizer moments and epoch counter"], ["parameters handed to the user callback each epoch"])

# Pure functions of their input: outside the reach of this technique.
prop("P18", "Shapes are what the model announces",
 "For every module and input shape the announced output shape is the shape of what evaluation returns.",
 ["inputs", "configurations"], "every module, option and input shape", "Tests sample few shapes.",
 ["parametricmatrixmodels/modules/basemodule.py", "parametricmatrixmodels/nonsequentialmodel.py"], [("get_output_shape", BM + ":BaseModule.get_output_shape")])
prop("P19", "Spectral modules return the requested eigenpairs",
 "Eigenvalue and eigenvector modules return exactly the requested number of eigenpairs of the given matrix, selected by the requested criterion, and matrices built from Hermitian parameters are Hermitian.",
 ["inputs", "configurations"], "every matrix, count and selection rule", "Tests sample a few matrices.",
 ["parametricmatrixmodels/eigen_util.py", "parametricmatrixmodels/modules/eigensystem.py", "parametricmatrixmodels/modules/affinehermitianmatrix.py"], [("selection", "parametricmatrixmodels/eigen_util.py")])
prop("P20", "Inverse transforms undo transforms",
 "For every scaler, transforming data and transforming back gives the data within rounding.",
 ["inputs", "configurations"], "every data set and scaler option", "Tests sample a few data sets.",
 [SC], [("inverse_transform", SC + ":Scaler.inverse_transform")])
prop("P21", "Conformal intervals cover at the stated rate",
 "For exchangeable data, prediction intervals contain the target with at least the requested probability.",
 ["inputs"], "every exchangeable distribution", "A statistical statement about populations.",
 [CM], [("quantile of scores", CM + ":ConformalizedModel.get_qhat")])
prop("P22", "Connections resolve to the intended graph",
 "For every set of connections a branching model evaluates each module once, after all of its inputs, or rejects the connections with an error.",
 ["inputs", "configurations"], "every connection graph", "Tests sample a few graphs.",
 ["parametricmatrixmodels/graph_util.py", NSEQ], [("execution order", "parametricmatrixmodels/graph_util.py")])
prop("P23", "Built-in losses compute their formulas",
 "Each named loss is the documented formula of predictions, targets and uncertainties.",
 ["inputs"], "every data set", "Tests sample a few arrays.",
 [T], [("loss functions", T + ":make_loss_fn")])
for p in P:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
