From cb9c30d8e678c7d2385a6b5dbb82b54b2bae3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:57 +0000
Subject: [PATCH 01/35] fix: Einsum uses the parameters it is given when
 frozen, not ones captured at compile time

---
 parametricmatrixmodels/modules/einsum.py | 34 +++++++-----------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..e662408 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -637,30 +637,16 @@ class Einsum(BaseModule):
             # most of this will be traced out by jax
             arrays = []
 
-            # if trainable, params will be the leading arrays, if there are
-            # any, otherwise it will be an empty tuple
-            if self.trainable:
-                if isinstance(params, np.ndarray):
-                    arrays.append(params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
-            elif not self.trainable and self.params is not None:
-                # if not trainable, params are fixed leading arrays, if any,
-                # and they are stored in self.params
-                if isinstance(self.params, np.ndarray):
-                    arrays.append(self.params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            self.params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
+            # params are the leading arrays, if there are any, whether or not
+            # they are trainable. The arrays passed in must be used, and not
+            # self.params, which would become constants of the compiled
+            # function and outlive later changes to the parameters
+            arrays.extend(
+                jax.tree.leaves(
+                    params,
+                    is_leaf=lambda x: isinstance(x, np.ndarray),
+                )
+            )
             # add the input data arrays
             arrays.extend(
                 jax.tree.leaves(
-- 
2.43.0


From d8f4e526aa0b552b81dd4e29efa935584888af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:24 +0000
Subject: [PATCH 02/35] fix: complex Adam no longer advances the epoch counter
 on every batch

The counter is advanced once per epoch by increment_epoch, as it is for the
real optimizer. Advancing it in update as well made learning rate schedules
and bias corrections depend on the number of batches.
---
 parametricmatrixmodels/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..2ae9b06 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -265,7 +265,7 @@ def complex_adam(
         v_hat = v / np.float32(1 - b2 ** (i + 1))
         x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))
 
-        return OptimizerState(x, m, v, i + 1)
+        return OptimizerState(x, m, v, i)
 
     @jaxtyped(typechecker=beartype)
     def get_params(state: OptimizerState) -> ParamArray:
-- 
2.43.0


From f26f9f3a8e6a460024e7bd9723d0a86e812ca6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:24 +0000
Subject: [PATCH 03/35] fix: resumed training continues with the next epoch of
 the schedule

The optimizer state recorded as best did not count the epoch that produced
it, so resuming repeated that epoch's learning rate and bias correction.
---
 parametricmatrixmodels/training.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 2ae9b06..0659b34 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -974,6 +974,13 @@ def _train(
                 epoch,
             )
 
+        # this epoch's updates are done, count it before the state can be
+        # recorded as the best, so that resuming continues with the next epoch
+        adam_state = [
+            increment_epoch(int(trainable), state)
+            for trainable, state in zip(trainable_flags_flat, adam_state)
+        ]
+
         # Validation step
         batch_rng, epoch_rng = jax.random.split(batch_rng)
         val_loss = batched_val_loss_fn(
@@ -1043,10 +1050,6 @@ def _train(
             adam_state,
             is_leaf=lambda x: isinstance(x, OptimizerState),
         )
-        adam_state = [
-            increment_epoch(int(trainable), state)
-            for trainable, state in zip(trainable_flags_flat, adam_state)
-        ]
 
         # Return the updated state for the next epoch
         return (
-- 
2.43.0


From 68c46bcdf51cecd956e6053e33bf989cb884d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:17 +0000
Subject: [PATCH 04/35] fix: training gives termination signals back to the
 caller when it ends

The handlers installed by verbose training were never removed, a second
signal was ignored because the killer was deactivated while tracing, and
verbose training failed outside of the main thread.
---
 parametricmatrixmodels/training.py | 39 +++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 0659b34..7468491 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1,8 +1,9 @@
 import random
 import signal
+import threading
 import warnings
 from dataclasses import dataclass
-from functools import partial
+from functools import partial, wraps
 
 import jax
 import jax.numpy as np
@@ -95,21 +96,51 @@ TrainingState: TypeAlias = Tuple[
 
 class GracefulKiller:
     kill_now = False
-    active = True
 
     def __init__(self) -> None:
+        # signal handlers can only be set from the main thread
+        if threading.current_thread() is not threading.main_thread():
+            return
         signal.signal(signal.SIGINT, self.exit_gracefully)
         signal.signal(signal.SIGTERM, self.exit_gracefully)
 
     def exit_gracefully(self, *args) -> None:
         # if a second signal is received, exit immediately
-        if self.kill_now and self.active:
+        if self.kill_now:
             raise KeyboardInterrupt(
                 "Multiple termination signals received, exiting."
             )
         self.kill_now = True
 
 
+def restores_signal_handlers(fn: Callable) -> Callable:
+    """
+    Give the termination signals back to the caller's handlers when ``fn`` is
+    done, however it ends.
+    """
+
+    @wraps(fn)
+    def wrapper(*args, **kwargs):
+        if threading.current_thread() is not threading.main_thread():
+            return fn(*args, **kwargs)
+        handlers = {
+            signum: signal.getsignal(signum)
+            for signum in (signal.SIGINT, signal.SIGTERM)
+        }
+        try:
+            # wait for the computation, which may be asynchronous
+            return jax.block_until_ready(fn(*args, **kwargs))
+        finally:
+            for signum, handler in handlers.items():
+                if signal.getsignal(signum) is not handler:
+                    signal.signal(
+                        signum,
+                        signal.SIG_DFL if handler is None else handler,
+                    )
+
+    return wrapper
+
+
 @jaxtyped(typechecker=beartype)
 def make_schedule(
     scalar_or_schedule: float | Callable[[int], float],
@@ -1118,7 +1149,6 @@ def _train(
             best_epoch=final_while_state[10],
             best_val_loss=final_while_state[9],
         )
-        killer.active = False
 
     # Extract the best adam state, model state, model rng, and final epoch
     return (
@@ -1131,6 +1161,7 @@ def _train(
     )
 
 
+@restores_signal_handlers
 @jaxtyped(typechecker=beartype)
 def train(
     resume: bool,  # whether to resume training from a previous state
-- 
2.43.0


From 73db8cc3f59836f5e86a657b6940b6ec8de7c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:56 +0000
Subject: [PATCH 05/35] fix: concurrent evaluations use their own batching
 options

Another thread evaluating the same model with other options could replace
the cached callable between the check and the call.
---
 parametricmatrixmodels/model.py | 76 ++++++++++++++-------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..976919d 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -200,11 +200,8 @@ class Model(BaseModule):
         self.grad_callable_inputs_options = None
 
         self.autobatched_callable = None
-        self.autobatched_callable_options = None
         self.autobatched_grad_callable_params = None
-        self.autobatched_grad_callable_params_options = None
         self.autobatched_grad_callable_inputs = None
-        self.autobatched_grad_callable_inputs_options = None
 
     @abstractmethod
     def compile(
@@ -589,19 +586,15 @@ class Model(BaseModule):
         elif isinstance(rng, int):
             rng = jax.random.key(rng)
 
-        if self.autobatched_callable is None or (
-            self.autobatched_callable_options
-            != {
-                "max_batch_size": max_batch_size,
-                "avoid_recompilation": avoid_recompilation,
-            }
-        ):
-            self.autobatched_callable_options = {
-                "max_batch_size": max_batch_size,
-                "avoid_recompilation": avoid_recompilation,
-            }
-
-            self.autobatched_callable = autobatch(
+        # the options are kept with the callable they belong to, and a local
+        # reference is called, since other threads may be doing the same
+        options = {
+            "max_batch_size": max_batch_size,
+            "avoid_recompilation": avoid_recompilation,
+        }
+        autobatched = self.autobatched_callable
+        if autobatched is None or autobatched[0] != options:
+            autobatched = options, autobatch(
                 self.callable,
                 max_batch_size,
                 avoid_recompilation=avoid_recompilation,
@@ -610,8 +603,9 @@ class Model(BaseModule):
                 newline=newline,
                 clearline=clearline,
             )
+            self.autobatched_callable = autobatched
 
-        out, new_state = self.autobatched_callable(
+        out, new_state = autobatched[1](
             self.get_params(), X_, False, self.get_state(), rng
         )
 
@@ -771,18 +765,15 @@ class Model(BaseModule):
         elif isinstance(rng, int):
             rng = jax.random.key(rng)
 
-        if self.autobatched_grad_callable_inputs is None or (
-            self.autobatched_grad_callable_inputs_options
-            != {
-                "max_batch_size": max_batch_size,
-                "avoid_recompilation": avoid_recompilation,
-            }
-        ):
-            self.autobatched_grad_callable_inputs_options = {
-                "max_batch_size": max_batch_size,
-                "avoid_recompilation": avoid_recompilation,
-            }
-            self.autobatched_grad_callable_inputs = autobatch(
+        # the options are kept with the callable they belong to, and a local
+        # reference is called, since other threads may be doing the same
+        options = {
+            "max_batch_size": max_batch_size,
+            "avoid_recompilation": avoid_recompilation,
+        }
+        autobatched = self.autobatched_grad_callable_inputs
+        if autobatched is None or autobatched[0] != options:
+            autobatched = options, autobatch(
                 self.grad_callable_inputs,
                 max_batch_size,
                 avoid_recompilation=avoid_recompilation,
@@ -795,8 +786,9 @@ class Model(BaseModule):
                 newline=newline,
                 clearline=clearline,
             )
+            self.autobatched_grad_callable_inputs = autobatched
 
-        grad_input_result, new_state = self.autobatched_grad_callable_inputs(
+        grad_input_result, new_state = autobatched[1](
             self.get_params(), X_, False, self.get_state(), rng
         )
 
@@ -913,18 +905,15 @@ class Model(BaseModule):
         elif isinstance(rng, int):
             rng = jax.random.key(rng)
 
-        if self.autobatched_grad_callable_params is None or (
-            self.autobatched_grad_callable_params_options
-            != {
-                "max_batch_size": max_batch_size,
-                "avoid_recompilation": avoid_recompilation,
-            }
-        ):
-            self.autobatched_grad_callable_params_options = {
-                "max_batch_size": max_batch_size,
-                "avoid_recompilation": avoid_recompilation,
-            }
-            self.autobatched_grad_callable_params = autobatch(
+        # the options are kept with the callable they belong to, and a local
+        # reference is called, since other threads may be doing the same
+        options = {
+            "max_batch_size": max_batch_size,
+            "avoid_recompilation": avoid_recompilation,
+        }
+        autobatched = self.autobatched_grad_callable_params
+        if autobatched is None or autobatched[0] != options:
+            autobatched = options, autobatch(
                 self.grad_callable_params,
                 max_batch_size,
                 avoid_recompilation=avoid_recompilation,
@@ -937,8 +926,9 @@ class Model(BaseModule):
                 newline=newline,
                 clearline=clearline,
             )
+            self.autobatched_grad_callable_params = autobatched
 
-        grad_params_result, new_state = self.autobatched_grad_callable_params(
+        grad_params_result, new_state = autobatched[1](
             self.get_params(), X_, False, self.get_state(), rng
         )
 
-- 
2.43.0


From 882affe8e82291ba6cda96ed768822268b0f498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 06/35] fix: adding a module to a model with + leaves the
 original model unchanged

---
 parametricmatrixmodels/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 976919d..ddaa4b3 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import random
 import sys
 import uuid
@@ -1504,7 +1505,8 @@ class Model(BaseModule):
         -------
             New model with the other module or model appended.
         """
-        new_model = self.__class__(self.modules)
+        # the container of modules is copied, since appending may modify it
+        new_model = self.__class__(copy.copy(self.modules))
         new_model.append_module(other)
         return new_model
 
-- 
2.43.0


From 345112de534eef176e9880bd842ff394b04d9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 07/35] fix: modules frozen inside a nested model are not
 trained

The trainable flag of a nested model is whether any of its modules is
trainable, and it was applied to all of them.
---
 parametricmatrixmodels/model.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index ddaa4b3..62b6d94 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1185,9 +1185,9 @@ class Model(BaseModule):
         # parameters p1 and the second module has parameters [p2, p3], then
         # we want trainable_params to be [False, [True, True]] so that the
         # training function knows to update p2 and p3 but not p1
-        trainable_modules = self.get_trainable_modules()
-
-        trainable_flags = jax.tree.broadcast(trainable_modules, params)
+        # this is done for each level of nested models, since their modules
+        # can be frozen individually
+        trainable_flags = self._get_trainable_flags()
 
         # train the model
         (
@@ -1254,6 +1254,20 @@ class Model(BaseModule):
 
         return jax.tree.map(is_trainable, self.modules)
 
+    def _get_trainable_flags(self) -> PyTree[bool]:
+        """
+        Return a PyTree with the same structure as the model's parameters,
+        where each leaf node is a boolean indicating whether the module that
+        parameter belongs to is trainable.
+        """
+
+        def module_flags(mod: BaseModule) -> PyTree[bool]:
+            if isinstance(mod, Model):
+                return mod._get_trainable_flags()
+            return jax.tree.map(lambda _: mod.trainable, mod.get_params())
+
+        return jax.tree.map(module_flags, self.modules)
+
     # methods to modify the module list
     def __getitem__(
         self,
-- 
2.43.0


From ccf06d723af9fa7e0448d176d1bd832328d9f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 08/35] fix: modules of a nonsequential model get independent
 random keys

---
 parametricmatrixmodels/nonsequentialmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..ec6332c 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -885,13 +885,16 @@ class NonSequentialModel(Model):
                     return_remainder=False,
                 )
 
+                # each module gets its own random key
+                rng, module_rng = jax.random.split(rng)
+
                 # call the module
                 out_data, new_module_state = module_callable(
                     module_params,
                     in_data,
                     training,
                     module_state,
-                    rng,
+                    module_rng,
                 )
 
                 # store the output
-- 
2.43.0


From 6591c479269231fba23d503ddffedb51f317a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:21 +0000
Subject: [PATCH 09/35] fix: nonsequential models do not modify the state
 passed to them

Values from a validation pass were left in the state of the surrounding
training loop, so that training a model with a module that updates its state
during evaluation failed.
---
 parametricmatrixmodels/nonsequentialmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index ec6332c..fbb1bde 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -846,7 +846,9 @@ class NonSequentialModel(Model):
                 data,
                 separator=self.separator,
             )
-            new_state = state
+            # the state that was passed in belongs to the caller, only a copy
+            # of its structure is modified
+            new_state = jax.tree.map(lambda leaf: leaf, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
             for mod_path, module_callable, req_in_paths in zip(
-- 
2.43.0


From 675a483bcdb8dc23096548a39da54443a22f39e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 10/35] fix: recalibrating a conformalized model discards the
 previous quantiles

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..c2f59b8 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -812,6 +812,8 @@ class ConformalizedModel(object):
         # s = |Y - Y_pred| / u
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
+        # quantiles of the scores of a previous calibration no longer apply
+        self.qhats = {}
 
     def parameter_sensitivity(
         self,
-- 
2.43.0


From 7c5329c433b11d34bbb5df9d1223eb42afa3c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 11/35] fix: a failed load or calibration leaves the object as
 it was

---
 .../conformal/conformalizedmodel.py           |  3 ++-
 parametricmatrixmodels/model.py               | 11 +++++++----
 parametricmatrixmodels/model_util.py          | 19 +++++++++++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index c2f59b8..f1ab4b0 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -19,7 +19,7 @@ import parametricmatrixmodels as pmm
 
 from .. import preprocessing, tree_util
 from ..model import Model
-from ..model_util import ModelState
+from ..model_util import ModelState, unchanged_on_failure
 from ..typing import (
     Any,
     Array,
@@ -214,6 +214,7 @@ class ConformalizedModel(object):
     def name(self, value: str):
         self._name = value
 
+    @unchanged_on_failure
     def calibrate(
         self,
         X_cal: PyTree[Inexact[Array, "cal_batch ?f0 ?*f"], " In"],
diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 62b6d94..a633d2f 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -26,6 +26,7 @@ from .model_util import (
     ModelState,
     ModelStruct,
     autobatch,
+    unchanged_on_failure,
 )
 from .modules import BaseModule
 from .training import OptimizerState, make_loss_fn, train
@@ -1642,6 +1643,7 @@ class Model(BaseModule):
             "self_serialized": super().serialize(),
         }
 
+    @unchanged_on_failure
     def deserialize(
         self,
         data: Dict[str, Serializable],
@@ -1731,18 +1733,19 @@ class Model(BaseModule):
 
         # remove rng from data["self_serialized"] since it's already
         # deserialized above
-        data["self_serialized"].pop("rng", None)
+        self_serialized = dict(data["self_serialized"])
+        self_serialized.pop("rng", None)
         # remove _optimizer_state from data["self_serialized"] since it's
         # already deserialized above
-        data["self_serialized"].pop("_optimizer_state", None)
+        self_serialized.pop("_optimizer_state", None)
         # remove "trainable" from data["self_serialized"] since it's not needed
         # and will cause issues overwriting the module's own trainable
         # attribute
-        data["self_serialized"].pop("trainable", None)
+        self_serialized.pop("trainable", None)
 
         # let default deserialization handle the rest of the attributes
         super().deserialize(
-            data["self_serialized"],
+            self_serialized,
             strict_package_version=strict_package_version,
         )
 
diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..68ce0ae 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -69,6 +69,25 @@ ModelCallable: TypeAlias = Callable[
 ]
 
 
+def unchanged_on_failure(method: Callable) -> Callable:
+    """
+    Decorator for methods that reassign attributes of their object. If the
+    method fails, all attributes are put back to what they were before.
+    """
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        attributes = dict(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(attributes)
+            raise
+
+    return wrapper
+
+
 @jaxtyped(typechecker=beartype)
 def autobatch(
     fn: ModelCallable | ModuleCallable,
-- 
2.43.0


From ca884d77211a1e1fa7848feda285ff8ecfcfedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 12/35] fix: saving keeps the structure of models and scalers
 made of lists and tuples

---
 parametricmatrixmodels/model.py               |  4 ++--
 .../preprocessing/scaler.py                   |  5 +++--
 parametricmatrixmodels/tree_util.py           | 20 ++++++++++++++++++-
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index a633d2f..5489cd7 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1766,7 +1766,7 @@ class Model(BaseModule):
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
-        np.savez(file, **data)
+        np.savez(file, **tree_util.npz_values(data))
 
     @jaxtyped(typechecker=beartype)
     def save_compressed(self, file: str | IO | Path, /) -> None:
@@ -1786,7 +1786,7 @@ class Model(BaseModule):
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax.numpy doesn't have savez_compressed, so we use numpy
-        onp.savez_compressed(file, **data)
+        onp.savez_compressed(file, **tree_util.npz_values(data))
 
     def load(
         self, file: str | IO | Path, /, *, strict_package_version=False
diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 5cb0bd0..41c9a6a 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -10,6 +10,7 @@ import numpy as onp
 from beartype import beartype
 from jaxtyping import jaxtyped
 
+from ..tree_util import npz_values
 from ..typing import Any, DataFixed, Dict, Tuple
 
 
@@ -155,7 +156,7 @@ class Scaler(ABC):
         data = self.serialize()
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
-        onp.savez(filepath, **data)
+        onp.savez(filepath, **npz_values(data))
 
     @final
     def save_compressed(self, filepath: IO | Path | str) -> None:
@@ -170,7 +171,7 @@ class Scaler(ABC):
         data = self.serialize()
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
-        onp.savez_compressed(filepath, **data)
+        onp.savez_compressed(filepath, **npz_values(data))
 
     @classmethod
     @final
diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..ce773ac 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -5,10 +5,28 @@ import warnings
 
 import jax
 import jax.numpy as np
+import numpy as onp
 from beartype import beartype
 from jaxtyping import Array, Integer, Num, PyTree, Shaped, jaxtyped
 
-from .typing import Any, Callable, List, Tuple
+from .typing import Any, Callable, Dict, List, Tuple
+
+
+def npz_values(data: Dict[str, Any]) -> Dict[str, Any]:
+    r"""
+    Prepare the values of a dictionary for ``numpy.savez``, which would turn
+    lists and tuples into arrays, losing their structure, or fail to do so. They
+    are wrapped in zero-dimensional object arrays instead.
+    """
+
+    def wrap(value: Any) -> Any:
+        if not isinstance(value, (list, tuple)):
+            return value
+        wrapped = onp.empty((), dtype=object)
+        wrapped[()] = value
+        return wrapped
+
+    return {key: wrap(value) for key, value in data.items()}
 
 
 def any(
-- 
2.43.0


From 063b0dda1f158fae13896b110cc1d1050bd11508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:47 +0000
Subject: [PATCH 13/35] fix: files are found under the name they were saved
 with

Saving appends .npz to names without it, whether they are str or Path.
---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 4 ++++
 parametricmatrixmodels/model.py                        | 3 ++-
 parametricmatrixmodels/preprocessing/scaler.py         | 5 +++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index f1ab4b0..5e0c077 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1752,6 +1752,10 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, (str, Path)):
+            file = str(file)
+            file = file if file.endswith(".npz") else file + ".npz"
+
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 5489cd7..29461f5 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1804,7 +1804,8 @@ class Model(BaseModule):
                 serialize the model does not match the current package version.
                 Default is False.
         """
-        if isinstance(file, str):
+        if isinstance(file, (str, Path)):
+            file = str(file)
             file = file if file.endswith(".npz") else file + ".npz"
         # jax numpy load supports both compressed and uncompressed npz files
         data = np.load(file, allow_pickle=True)
diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 41c9a6a..dbce13a 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -188,8 +188,9 @@ class Scaler(ABC):
         Scaler
             Loaded scaler.
         """
-        if isinstance(filepath, str) and not filepath.endswith(".npz"):
-            filepath += ".npz"
+        if isinstance(filepath, (str, Path)):
+            filepath = str(filepath)
+            filepath += "" if filepath.endswith(".npz") else ".npz"
         data = onp.load(filepath, allow_pickle=True)
 
         # convert all arrays to jax.numpy arrays, including tree leaves
-- 
2.43.0


From 17b6444a347754de9e2e9feed8c36432eeced3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:48 +0000
Subject: [PATCH 14/35] fix: loading a conformalized model restores its name
 and checks versions strictly

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 5e0c077..80a03b1 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1638,7 +1638,9 @@ class ConformalizedModel(object):
         model_module = data["model_module"]
         model_typename = data["model_typename"]
         model = getattr(sys.modules[model_module], model_typename)()
-        model.deserialize(data["model"])
+        model.deserialize(
+            data["model"], strict_package_version=strict_package_version
+        )
 
         # deserialize the conformalization state
         conf_state = data["conformalization_state"]
@@ -1770,6 +1772,8 @@ class ConformalizedModel(object):
             data["model_fulltypename"] = data["model_fulltypename"].item()
         if isinstance(data["model_module"], (onp.ndarray, np.ndarray)):
             data["model_module"] = data["model_module"].item()
+        if isinstance(data["conformal_name"], (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
         if isinstance(
             data["conformalization_state"], (onp.ndarray, np.ndarray)
         ):
-- 
2.43.0


From 657e23fe0ab62d9bb69dbc4b2e1b6c1351278363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:48 +0000
Subject: [PATCH 15/35] fix: models can be saved to in-memory files

---
 parametricmatrixmodels/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 29461f5..444f7c1 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -6,6 +6,7 @@ import sys
 import uuid
 import warnings
 from abc import abstractmethod
+from io import IOBase
 from pathlib import Path
 from typing import IO
 
@@ -1750,7 +1751,7 @@ class Model(BaseModule):
         )
 
     @jaxtyped(typechecker=beartype)
-    def save(self, file: str | IO | Path, /) -> None:
+    def save(self, file: str | IO | IOBase | Path, /) -> None:
         """
         Save the model to a file.
 
@@ -1769,7 +1770,7 @@ class Model(BaseModule):
         np.savez(file, **tree_util.npz_values(data))
 
     @jaxtyped(typechecker=beartype)
-    def save_compressed(self, file: str | IO | Path, /) -> None:
+    def save_compressed(self, file: str | IO | IOBase | Path, /) -> None:
         """
         Save the model to a compressed file.
 
-- 
2.43.0


From f78cd28b31ddae7707762fd7c331a9b871178726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:48 +0000
Subject: [PATCH 16/35] fix: RobustScaler handles data with more than one
 feature

---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..fb30ca7 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -191,9 +191,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
+                (x - median)
+                / np.where(np.abs(scale) > self.eps, scale, 1.0)
             ),
             X,
             self.median_,
@@ -225,9 +224,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
+                x_scaled * np.where(np.abs(scale) > self.eps, scale, 1.0)
+                + median
             ),
             X_scaled,
             self.median_,
-- 
2.43.0


From f55a031e262064d20c2dd24f2b7f86889ab54990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:48 +0000
Subject: [PATCH 17/35] fix: ConcatenateLeaves and LowRankAffineHermitianMatrix
 save all their options

---
 parametricmatrixmodels/modules/concatenateleaves.py            | 2 ++
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..4448856 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -176,6 +176,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..68549b8 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
-- 
2.43.0


From 8f5cee8c78fb5a8a474828a57a6f740629cc4ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:04 +0000
Subject: [PATCH 18/35] fix: an incomplete file no longer loads as a mixed
 scaler without scalers

---
 parametricmatrixmodels/preprocessing/mixed_scaler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/mixed_scaler.py b/parametricmatrixmodels/preprocessing/mixed_scaler.py
index d2209d3..615d531 100644
--- a/parametricmatrixmodels/preprocessing/mixed_scaler.py
+++ b/parametricmatrixmodels/preprocessing/mixed_scaler.py
@@ -212,9 +212,9 @@ class MixedScaler(Scaler):
             scaler
                 An instance of MixedScaler with the restored state.
         """
-        feature_scalers_serial = state.get("feature_scalers", None)
-        scaler_typenames = state.get("scaler_typenames", None)
-        scaler_modules = state.get("scaler_modules", None)
+        feature_scalers_serial = state["feature_scalers"]
+        scaler_typenames = state["scaler_typenames"]
+        scaler_modules = state["scaler_modules"]
 
         if feature_scalers_serial is None:
             return cls(feature_scalers=None)
-- 
2.43.0


From a053099ea205797504149cf24b36120937a64da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:04 +0000
Subject: [PATCH 19/35] fix: results of training are stored completely or not
 at all

---
 parametricmatrixmodels/model.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 444f7c1..92c2345 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1232,14 +1232,26 @@ class Model(BaseModule):
             fwd=fwd,
         )
 
-        # set the final parameters
-        self.set_params(final_params)
-        # set the final state
-        self.set_state(final_model_states)
-        # set the final rng
-        self.set_rng(final_model_rng)
-        # set the final optimizer state
-        self._optimizer_state = final_optimizer_states
+        initial_params = self.get_params()
+        initial_state = self.get_state()
+        initial_rng = self.get_rng()
+        try:
+            # set the final parameters
+            self.set_params(final_params)
+            # set the final state
+            self.set_state(final_model_states)
+            # set the final rng
+            self.set_rng(final_model_rng)
+            # set the final optimizer state
+            self._optimizer_state = final_optimizer_states
+        except BaseException:
+            # a module refused its results, keep those of none
+            self.set_rng(initial_rng)
+            try:
+                self.set_params(initial_params)
+            finally:
+                self.set_state(initial_state)
+            raise
 
     def get_trainable_modules(self) -> PyTree[bool, ModelStruct]:
         """
-- 
2.43.0


From 4736d365eca8f1f89cfc2030e1314b13dea0d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:28 +0000
Subject: [PATCH 20/35] fix: grad_input returns a state without batch dimension

---
 parametricmatrixmodels/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 92c2345..841364d 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -756,10 +756,17 @@ class Model(BaseModule):
                 grad_single = jax.jacrev(
                     callable_single, argnums=1, has_aux=True
                 )
-            self.grad_callable_inputs = jax.vmap(
+            grad_batch = jax.vmap(
                 grad_single, in_axes=(None, 0, None, None, None)
             )
 
+            # the state is that of the last sample, without batch dimension
+            def grad_last_state(params, x, training, state, rng):
+                grads, new_states = grad_batch(params, x, training, state, rng)
+                return grads, jax.tree.map(lambda s: s[-1], new_states)
+
+            self.grad_callable_inputs = grad_last_state
+
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
 
-- 
2.43.0


From e0fc5fbab2c0be2be9e7e7b578b77f6e0b082c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:37 +0000
Subject: [PATCH 21/35] fix: verbose evaluation no longer relies on the order
 of callbacks

---
 parametricmatrixmodels/model_util.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 68ce0ae..594e19b 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -163,12 +163,18 @@ def autobatch(
             if verbose:
                 X = jax.pure_callback(start_pb, X, X)
 
+            # the output may not depend on the input, in which case nothing
+            # orders these after start_pb
             def update_pb(out: Data, i: int) -> Data:
-                ProgressBar.Instance.update(i)
+                if ProgressBar.Instance is not None:
+                    ProgressBar.Instance.update(i)
                 return out
 
             def end_pb(out: Data) -> Data:
-                ProgressBar.Instance.end(newline=newline, clearline=clearline)
+                if ProgressBar.Instance is not None:
+                    ProgressBar.Instance.end(
+                        newline=newline, clearline=clearline
+                    )
                 return out
 
             def body_fn(i_new_state, X_batch):
@@ -176,7 +182,7 @@ def autobatch(
                 out, new_state = jfn(params, X_batch, training, new_state, rng)
                 if verbose:
                     if avoid_recompilation:
-                        ProgressBar.Instance.update(i + 1)
+                        update_pb(out, i + 1)
                     else:
                         out = jax.pure_callback(update_pb, out, out, i + 1)
                 return (i + 1, new_state), out
@@ -222,7 +228,7 @@ def autobatch(
                 # from the last batch processed
                 if verbose:
                     if avoid_recompilation:
-                        ProgressBar.Instance.update(num_batches + 2)
+                        update_pb(out, num_batches + 2)
                     else:
                         out = jax.pure_callback(
                             update_pb, out, out, num_batches + 2
@@ -266,10 +272,7 @@ def autobatch(
 
             if verbose:
                 if avoid_recompilation:
-                    ProgressBar.Instance.end(
-                        newline=newline, clearline=clearline
-                    )
-
+                    end_pb(out)
                 else:
                     out = jax.pure_callback(end_pb, out, out)
 
-- 
2.43.0


From 8ff4f3dc8beb15fb2894e0be4131ea434262d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:39 +0000
Subject: [PATCH 22/35] fix: copies and serialized data do not share containers
 with the module

---
 parametricmatrixmodels/modules/basemodule.py | 11 ++++++++---
 parametricmatrixmodels/modules/bias.py       |  4 ++--
 parametricmatrixmodels/modules/constant.py   |  4 ++--
 parametricmatrixmodels/modules/einsum.py     |  4 ++--
 parametricmatrixmodels/tree_util.py          | 12 ++++++++++++
 5 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 5a7099e..0de00a0 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -18,6 +18,7 @@ from jaxtyping import jaxtyped
 from packaging.version import InvalidVersion, Version, parse
 
 import parametricmatrixmodels as pmm
+from parametricmatrixmodels.tree_util import copy_containers
 from parametricmatrixmodels.typing import (
     Any,
     Data,
@@ -813,11 +814,15 @@ class BaseModule(ABC):
                 RuntimeWarning,
             )
 
+        # the containers are copied so that the data does not share them with
+        # this module
         return {
             "name": self.name,
-            "hyperparameters": autoserializable_hyperparameters,
-            "params": self.get_params(),
-            "state": self.get_state(),
+            "hyperparameters": copy_containers(
+                autoserializable_hyperparameters
+            ),
+            "params": copy_containers(self.get_params()),
+            "state": copy_containers(self.get_state()),
             "trainable": self.trainable,
             "package_version": pmm.__version__,
             "module_version": self.__version__,
diff --git a/parametricmatrixmodels/modules/bias.py b/parametricmatrixmodels/modules/bias.py
index 0a46e4c..f1c31fe 100644
--- a/parametricmatrixmodels/modules/bias.py
+++ b/parametricmatrixmodels/modules/bias.py
@@ -5,7 +5,7 @@ import jax.numpy as np
 from beartype import beartype
 from jaxtyping import Array, Inexact, PyTree, jaxtyped
 
-from ..tree_util import is_shape_leaf
+from ..tree_util import copy_containers, is_shape_leaf
 from ..typing import (
     Any,
     Data,
@@ -261,7 +261,7 @@ class Bias(BaseModule):
         super(Bias, self).set_hyperparameters(hyperparams)
 
     def get_params(self) -> Params:
-        return self.bias
+        return copy_containers(self.bias)
 
     def set_params(self, params: Params) -> None:
         if self.bias is not None:
diff --git a/parametricmatrixmodels/modules/constant.py b/parametricmatrixmodels/modules/constant.py
index d06cfe1..b895db6 100644
--- a/parametricmatrixmodels/modules/constant.py
+++ b/parametricmatrixmodels/modules/constant.py
@@ -5,7 +5,7 @@ import jax.numpy as np
 from beartype import beartype
 from jaxtyping import Array, Inexact, PyTree, jaxtyped
 
-from parametricmatrixmodels.tree_util import is_shape_leaf
+from parametricmatrixmodels.tree_util import copy_containers, is_shape_leaf
 from parametricmatrixmodels.typing import (
     Any,
     Data,
@@ -238,7 +238,7 @@ class Constant(BaseModule):
         super(Constant, self).set_hyperparameters(hyperparams)
 
     def get_params(self) -> Params:
-        return self.constant
+        return copy_containers(self.constant)
 
     def set_params(self, params: Params) -> None:
         self.constant = params
diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index e662408..48f0341 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -3,7 +3,7 @@ import jax.numpy as np
 from beartype import beartype
 from jaxtyping import Array, Inexact, PyTree, jaxtyped
 
-from ..tree_util import is_shape_leaf
+from ..tree_util import copy_containers, is_shape_leaf
 from ..typing import (
     Any,
     Data,
@@ -800,7 +800,7 @@ class Einsum(BaseModule):
             self.real = hyperparams["real"]
 
     def get_params(self) -> Params:
-        return self.params
+        return copy_containers(self.params)
 
     def set_params(self, params: Params) -> None:
         self.params = params
diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index ce773ac..02881f5 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -29,6 +29,18 @@ def npz_values(data: Dict[str, Any]) -> Dict[str, Any]:
     return {key: wrap(value) for key, value in data.items()}
 
 
+def copy_containers(pytree: Any) -> Any:
+    r"""
+    Copy all dictionaries, lists, and tuples of a pytree, keeping the order of
+    dictionaries and sharing the leaves.
+    """
+    if type(pytree) is dict:
+        return {k: copy_containers(v) for k, v in pytree.items()}
+    if type(pytree) in (list, tuple):
+        return type(pytree)(copy_containers(v) for v in pytree)
+    return pytree
+
+
 def any(
     pytree: PyTree[Any],
     is_leaf: Callable[[Any], bool] | None = None,
-- 
2.43.0


From 72cc60afe63922db28cceb89b8c5724b080e8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:23 +0000
Subject: [PATCH 23/35] fix: removing a module of a tuple by a negative index
 removes just that one

---
 parametricmatrixmodels/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 841364d..67f9d6f 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1481,8 +1481,9 @@ class Model(BaseModule):
         elif isinstance(self.modules, List):
             return self.modules.pop(index)
         elif isinstance(self.modules, Tuple):
-            module = self.modules[index]
-            self.modules = self.modules[:index] + self.modules[index + 1 :]
+            items = list(self.modules)
+            module = items.pop(index)
+            self.modules = tuple(items)
             return module
         else:
             raise TypeError(
-- 
2.43.0


From 3734a36946e39afb31f00aa08b4e4633c8cc86d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:25 +0000
Subject: [PATCH 24/35] fix: models made from the same list of modules can be
 edited independently

---
 parametricmatrixmodels/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 67f9d6f..596ead8 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -125,9 +125,11 @@ class Model(BaseModule):
         jax.random.key : JAX function to create a random key.
         """
         self._name = name
-        self.modules = modules if modules is not None else []
         if isinstance(modules, BaseModule):
             self.modules = [modules]
+        else:
+            # the container is copied since editing the model modifies it
+            self.modules = copy.copy(modules) if modules is not None else []
         if rng is None:
             self.rng = jax.random.key(random.randint(0, 2**32 - 1))
         elif isinstance(rng, int):
-- 
2.43.0


From 6919a9aa713065d12744a8fa3caf34a36d3678e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:20 +0000
Subject: [PATCH 25/35] fix: compiling a model again discards functions made
 for its modules as they were before

---
 parametricmatrixmodels/model.py              | 9 ++++++++-
 parametricmatrixmodels/nonsequentialmodel.py | 1 +
 parametricmatrixmodels/sequentialmodel.py    | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 596ead8..068155e 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -197,8 +197,15 @@ class Model(BaseModule):
     def reset(self) -> None:
         self.input_shape: DataShape | None = None
         self.output_shape: DataShape | None = None
-        self.callable: ModelCallable | None = None
         self._optimizer_state = None
+        self._reset_callables()
+
+    def _reset_callables(self) -> None:
+        r"""
+        Discard the compiled functions, which belong to the modules as they
+        were when the functions were made.
+        """
+        self.callable: ModelCallable | None = None
         self.grad_callable_params = None
         self.grad_callable_params_options = None
         self.grad_callable_inputs = None
diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index fbb1bde..72b662c 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -438,6 +438,7 @@ class NonSequentialModel(Model):
                 print(f"  {i}: {module_path}")
 
         # set the input and output shapes
+        self._reset_callables()
         self.input_shape = input_shape
 
         input_progression, output_progression, self.output_shape = (
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..20fb1aa 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -129,6 +129,7 @@ class SequentialModel(Model):
         if verbose:
             print(f"Compiling {self.name} for input shape {input_shape}.")
 
+        self._reset_callables()
         self.input_shape = input_shape
 
         for i, module in enumerate(jax.tree.leaves(self.modules)):
-- 
2.43.0


From 19322ec805f2fb94ed62db3670dc3ea4924cc852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:31 +0000
Subject: [PATCH 26/35] fix: a failed fit leaves the scaler as it was

---
 .../preprocessing/mixed_scaler.py             | 21 +++++++++++++------
 .../preprocessing/scaler.py                   |  4 ++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/mixed_scaler.py b/parametricmatrixmodels/preprocessing/mixed_scaler.py
index 615d531..9d458dc 100644
--- a/parametricmatrixmodels/preprocessing/mixed_scaler.py
+++ b/parametricmatrixmodels/preprocessing/mixed_scaler.py
@@ -64,12 +64,21 @@ class MixedScaler(Scaler):
             else:
                 return None
 
-        self.feature_scalers = jax.tree.map(
-            fit_individual,
-            self.feature_scalers,
-            X,
-            is_leaf=lambda x: x is None,
-        )
+        # if one feature cannot be fitted, none of the scalers is changed
+        scalers = jax.tree.leaves(self.feature_scalers)
+        attributes = [dict(scaler.__dict__) for scaler in scalers]
+        try:
+            self.feature_scalers = jax.tree.map(
+                fit_individual,
+                self.feature_scalers,
+                X,
+                is_leaf=lambda x: x is None,
+            )
+        except BaseException:
+            for scaler, before in zip(scalers, attributes):
+                scaler.__dict__.clear()
+                scaler.__dict__.update(before)
+            raise
         return self
 
     def transform(self, X: Data, y: Data | None = None) -> Data:
diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index dbce13a..c5e6db5 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -10,6 +10,7 @@ import numpy as onp
 from beartype import beartype
 from jaxtyping import jaxtyped
 
+from ..model_util import unchanged_on_failure
 from ..tree_util import npz_values
 from ..typing import Any, DataFixed, Dict, Tuple
 
@@ -30,6 +31,9 @@ class Scaler(ABC):
                 setattr(cls, name, jaxtyped(typechecker=beartype)(method))
                 # set the __jaxtyped__ attribute to avoid re-wrapping
                 getattr(cls, name).__jaxtyped__ = True
+        # a fit that fails leaves the scaler as it was
+        if "fit" in cls.__dict__:
+            cls.fit = unchanged_on_failure(cls.fit)
 
     @abstractmethod
     def fit(self, X: DataFixed, y: DataFixed | None = None) -> Scaler:
-- 
2.43.0


From 60b7c019c1ff3911bd743fce305abd2e8c47e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 27/35] fix: modules frozen before they are compiled stay
 frozen

---
 parametricmatrixmodels/model.py                       | 7 +++++++
 parametricmatrixmodels/modules/affineeigenvaluepmm.py | 6 ++++++
 parametricmatrixmodels/modules/affineobservablepmm.py | 6 ++++++
 parametricmatrixmodels/modules/linearnn.py            | 6 ++++++
 4 files changed, 25 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 068155e..267d065 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -85,15 +85,22 @@ class Model(BaseModule):
             + "\n)"
         )
 
+    # value of the trainable property as long as there are no modules, for
+    # models that create their modules when they are compiled
+    _trainable_without_modules: bool = True
+
     # override the trainable property
     @property
     def trainable(self) -> bool:
+        if not jax.tree.leaves(self.modules):
+            return self._trainable_without_modules
         return any(
             module.trainable for module in jax.tree.leaves(self.modules)
         )
 
     @trainable.setter
     def trainable(self, value: bool) -> None:
+        self._trainable_without_modules = value
         for module in jax.tree.leaves(self.modules):
             module.trainable = value
 
diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 5b3c474..d68b2f5 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -163,6 +163,9 @@ class AffineEigenvaluePMM(SequentialModel):
                 UserWarning,
             )
 
+        # modules created below are frozen if this one is
+        frozen = not self.trainable
+
         if self.input_shape != input_shape or self.modules is None:
             # Create the AffineHermitianMatrix module
             affine_module = AffineHermitianMatrix(
@@ -185,6 +188,9 @@ class AffineEigenvaluePMM(SequentialModel):
         # Call the parent compile method
         super().compile(rng, input_shape, verbose=verbose)
 
+        if frozen:
+            self.freeze()
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         valid, _ = is_single_leaf(input_shape, is_leaf=is_shape_leaf)
         if not valid:
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 94f2317..ecc06ab 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -249,6 +249,9 @@ class AffineObservablePMM(SequentialModel):
                 UserWarning,
             )
 
+        # modules created below are frozen if this one is
+        frozen = not self.trainable
+
         # don't override existing modules if input shape hasn't changed
         if input_shape != self.input_shape or self.modules is None:
 
@@ -300,6 +303,9 @@ class AffineObservablePMM(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        if frozen:
+            self.freeze()
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         if self.output_size is None:
             raise ValueError(
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 461544e..6e92a43 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -88,6 +88,9 @@ class LinearNN(SequentialModel):
                 "LinearNN only supports input shapes with a single leaf array."
             )
 
+        # modules created below are frozen if this one is
+        frozen = not self.trainable
+
         if input_shape != self.input_shape or self.modules is None:
             # don't overwrite modules if input shape hasn't changed
             modules: List[BaseModule] = [
@@ -117,6 +120,9 @@ class LinearNN(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        if frozen:
+            self.freeze()
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         r"""
         Get the output shape of the LinearNN module given the input shape.
-- 
2.43.0


From c8a73595864c3f371f84b02a97651b4c86ccdd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:00 +0000
Subject: [PATCH 28/35] fix: an uncompiled LinearNN keeps its activation when
 saved or copied

---
 parametricmatrixmodels/modules/linearnn.py | 34 +++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 6e92a43..06c5f90 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import sys
+
 import jax
 
 from ..sequentialmodel import SequentialModel
@@ -183,6 +185,27 @@ class LinearNN(SequentialModel):
         self.real = hyperparams.get("real", self.real)
         super().set_hyperparameters(hyperparams)
 
+    def serialize(self) -> Dict[str, Serializable]:
+        r"""
+        Serialize the LinearNN module to a dictionary.
+
+        Returns
+        -------
+        Dict[str, Serializable]
+            A dictionary containing the serialized data of the module.
+        """
+
+        data = super().serialize()
+        # the activation is one of the modules, unless these have not been
+        # created yet
+        if not self.modules and self.activation is not None:
+            data["activation"] = {
+                "typename": self.activation.__class__.__name__,
+                "module": self.activation.__module__,
+                "serialized": self.activation.serialize(),
+            }
+        return data
+
     def deserialize(
         self,
         data: Dict[str, Serializable],
@@ -208,7 +231,16 @@ class LinearNN(SequentialModel):
         if self.modules is not None:
             # figure out if modules contains an activation function
             # by checking the number of modules
-            if len(self.modules) == 2:
+            activation = data.get("activation", None)
+            if not self.modules and activation is not None:
+                self.activation = getattr(
+                    sys.modules[activation["module"]], activation["typename"]
+                )()
+                self.activation.deserialize(
+                    activation["serialized"],
+                    strict_package_version=strict_package_version,
+                )
+            elif len(self.modules) == 2:
                 self.activation = None
             elif len(self.modules) == 3 and not self.bias:
                 self.activation = self.modules[2]
-- 
2.43.0


From 6d661dc5f6d3d09b48d9a1bffea4dd85f271809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:00 +0000
Subject: [PATCH 29/35] fix: uncompiled affine PMMs keep given matrices when
 saved or copied

---
 parametricmatrixmodels/modules/affineeigenvaluepmm.py | 2 ++
 parametricmatrixmodels/modules/affineobservablepmm.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index d68b2f5..fa8a1f5 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -207,6 +207,7 @@ class AffineEigenvaluePMM(SequentialModel):
             "num_eig": self.num_eig,
             "which": self.which,
             "smoothing": self.smoothing,
+            "Ms": self.Ms,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
             **super().get_hyperparameters(),
@@ -217,6 +218,7 @@ class AffineEigenvaluePMM(SequentialModel):
         self.num_eig = hyperparams["num_eig"]
         self.which = hyperparams["which"]
         self.smoothing = hyperparams["smoothing"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
         self.init_magnitude = hyperparams["init_magnitude"]
         self.bias_term = hyperparams["bias_term"]
         super().set_hyperparameters(hyperparams)
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index ecc06ab..30cbe90 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -327,6 +327,8 @@ class AffineObservablePMM(SequentialModel):
             "num_eig": self.num_eig,
             "which": self.which,
             "smoothing": self.smoothing,
+            "Ms": self.Ms,
+            "Ds": self.Ds,
             "init_magnitude": self.init_magnitude,
             "affine_bias_matrix": self.affine_bias_matrix,
             "num_secondaries": self.num_secondaries,
@@ -342,6 +344,8 @@ class AffineObservablePMM(SequentialModel):
         self.num_eig = hyperparams["num_eig"]
         self.which = hyperparams["which"]
         self.smoothing = hyperparams["smoothing"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
+        self.Ds = hyperparams.get("Ds", self.Ds)
         self.init_magnitude = hyperparams["init_magnitude"]
         self.bias_term = hyperparams["bias_term"]
         self.affine_bias_matrix = hyperparams["affine_bias_matrix"]
-- 
2.43.0


From dcc5cbd3bc2a630e1e0dbc8afe9a69c4f5244ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:00 +0000
Subject: [PATCH 30/35] fix: a frozen model without modules stays frozen when
 saved or copied

---
 parametricmatrixmodels/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 267d065..f54d7d5 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1677,6 +1677,7 @@ class Model(BaseModule):
             "optimizer_struct": optimizer_struct,
             "package_version": pmm.__version__,
             "model_version": self.__version__,
+            "trainable_without_modules": self._trainable_without_modules,
             "self_serialized": super().serialize(),
         }
 
@@ -1779,6 +1780,9 @@ class Model(BaseModule):
         # and will cause issues overwriting the module's own trainable
         # attribute
         self_serialized.pop("trainable", None)
+        self._trainable_without_modules = bool(
+            data.get("trainable_without_modules", True)
+        )
 
         # let default deserialization handle the rest of the attributes
         super().deserialize(
-- 
2.43.0


From 063a4b8b008459d1b0c23b74d0fe75ebb1215e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:23 +0000
Subject: [PATCH 31/35] fix: the same connections always give the same keys to
 unnamed pieces

---
 parametricmatrixmodels/graph_util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..714fbaa 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -73,10 +73,15 @@ def concretize_paths(paths: List[str], separator: str = ".") -> List[str]:
             existing_keys = set([p[0] for p, _ in group_paths if p])
             is_str = any(not k.isdigit() for k in existing_keys)
             if is_str:
-                # use uuid to avoid collisions
+                # use uuid to avoid collisions, always the same one for the
+                # same path so that the same connections give the same tree
                 for p, i in group_paths:
                     if p == []:
-                        new_key = str(uuid.uuid4().hex)
+                        new_key = str(
+                            uuid.uuid5(
+                                uuid.NAMESPACE_OID, f"{i}{separator}{prefix}"
+                            ).hex
+                        )
                         paths[i] = paths[i] + [new_key]
             else:
                 # get an iterable of available indices
-- 
2.43.0


From ccbe8c0bff5c6b45f8e85af3fbb916eacc671e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:25 +0000
Subject: [PATCH 32/35] fix: a model's random key keeps its implementation when
 saved or copied

---
 parametricmatrixmodels/model.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index f54d7d5..19b87d6 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1648,7 +1648,13 @@ class Model(BaseModule):
         model_structure = jax.tree.structure(self.modules)
 
         # serialize rng key
-        key_data = jax.random.key_data(self.get_rng())
+        rng = self.get_rng()
+        key_data = jax.random.key_data(rng)
+        key_impl = (
+            str(jax.random.key_impl(rng))
+            if jax.dtypes.issubdtype(rng.dtype, jax.dtypes.prng_key)
+            else None
+        )
 
         # serialize optimizer_state if applicable
         optimizer_struct = jax.tree.structure(self.get_params())
@@ -1673,6 +1679,7 @@ class Model(BaseModule):
             "serialized_modules": serialized_modules,
             "model_structure": model_structure,
             "key_data": key_data,
+            "key_impl": key_impl,
             "optimizer_state": serial_optimizer_state,
             "optimizer_struct": optimizer_struct,
             "package_version": pmm.__version__,
@@ -1753,7 +1760,11 @@ class Model(BaseModule):
         self._name = data.get("model_name", None)
 
         # deserialize the rng key
-        key = jax.random.wrap_key_data(data["key_data"])
+        key_impl = data.get("key_impl", None)
+        key = jax.random.wrap_key_data(
+            data["key_data"],
+            impl=str(key_impl) if key_impl is not None else None,
+        )
         self.set_rng(key)
 
         # deserialize optimizer_state if applicable
@@ -1871,6 +1882,8 @@ class Model(BaseModule):
             data["optimizer_struct"] = data["optimizer_struct"].item()
         if isinstance(data["model_name"], (onp.ndarray, np.ndarray)):
             data["model_name"] = data["model_name"].item()
+        if isinstance(data.get("key_impl"), (onp.ndarray, np.ndarray)):
+            data["key_impl"] = data["key_impl"].item()
 
         # deserialize the model
         self.deserialize(data, strict_package_version=strict_package_version)
-- 
2.43.0


From bf04d148d92ddaab5e65289ed82791208b84d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:31 +0000
Subject: [PATCH 33/35] fix: a module restored from serialized data does not
 share containers with it

---
 parametricmatrixmodels/modules/basemodule.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 0de00a0..52032c7 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -878,18 +878,23 @@ class BaseModule(ABC):
             # upgrade the data to the current version
             data = self.upgrade(data)
 
+        # the containers are copied so that the module does not share them
+        # with the data
+
         # set the hyperparameters
-        self.set_hyperparameters(data.get("hyperparameters", {}))
+        self.set_hyperparameters(
+            copy_containers(data.get("hyperparameters", {}))
+        )
 
         # if there are trainable parameters, set them
         params = data.get("params", None)
         if params is not None:
-            self.set_params(params)
+            self.set_params(copy_containers(params))
 
         # if there are states, set them
         state = data.get("state", None)
         if state is not None:
-            self.set_state(state)
+            self.set_state(copy_containers(state))
 
         # optionally set the trainable flag
         trainable = data.get("trainable", None)
-- 
2.43.0


From 6dfdf527d314246ca3e25242a86cabe08f2c0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:51 +0000
Subject: [PATCH 34/35] fix: serialized scalers and conformalized models do not
 share containers with what they were made from

---
 .../conformal/conformalizedmodel.py           |  8 +++++--
 .../preprocessing/minmax_scaler.py            | 15 ++++++++-----
 .../preprocessing/onehot.py                   | 13 ++++++++----
 .../preprocessing/robust_scaler.py            | 21 ++++++++++++-------
 .../preprocessing/standard_scaler.py          | 13 ++++++++----
 5 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 80a03b1..ef55369 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1590,7 +1590,10 @@ class ConformalizedModel(object):
             "model_fulltypename": model_fulltypename,
             "model_module": model_module,
             "model": serialized_model,
-            "conformalization_state": conformalization_state,
+            # what is handed out does not share containers with this object
+            "conformalization_state": tree_util.copy_containers(
+                conformalization_state
+            ),
             "conformal_name": self._name,
         }
 
@@ -1643,7 +1646,8 @@ class ConformalizedModel(object):
         )
 
         # deserialize the conformalization state
-        conf_state = data["conformalization_state"]
+        # (nothing is shared with the data given)
+        conf_state = tree_util.copy_containers(data["conformalization_state"])
         default_alpha = conf_state["default_alpha"]
         nn_dist_quantile = conf_state["nn_dist_quantile"]
 
diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9526d2a..4051047 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -4,6 +4,7 @@ import jax
 import jax.numpy as np
 from jaxtyping import Array, PyTree, Real
 
+from ..tree_util import copy_containers
 from ..typing import (
     Any,
     BatchlessRealDataFixed,
@@ -195,11 +196,14 @@ class MinMaxScaler(Scaler):
             state
                 A dictionary containing the scaler's parameters and state.
         """
-        return {
-            "feature_range": (self.min_val, self.max_val),
-            "data_min_": self.data_min_,
-            "data_max_": self.data_max_,
-        }
+        # what is handed out does not share containers with the scaler
+        return copy_containers(
+            {
+                "feature_range": (self.min_val, self.max_val),
+                "data_min_": self.data_min_,
+                "data_max_": self.data_max_,
+            }
+        )
 
     @classmethod
     def deserialize(
@@ -219,6 +223,7 @@ class MinMaxScaler(Scaler):
             scaler
                 An instance of MinMaxScaler with the restored state.
         """
+        state = copy_containers(state)
         scaler = cls(feature_range=state["feature_range"])
         scaler.data_min_ = state["data_min_"]
         scaler.data_max_ = state["data_max_"]
diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..d6d1c90 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -4,6 +4,7 @@ import jax
 import jax.numpy as np
 from jaxtyping import Array, Inexact, PyTree
 
+from ..tree_util import copy_containers
 from ..typing import Any, Dict, Tuple
 from .scaler import Scaler
 
@@ -148,10 +149,13 @@ class OneHot(Scaler):
             state
                 A dictionary containing the encoder's parameters and state.
         """
-        return {
-            "unique_vals_": self.unique_vals_,
-            "original_shapes_": self.original_shapes_,
-        }
+        # what is handed out does not share containers with the scaler
+        return copy_containers(
+            {
+                "unique_vals_": self.unique_vals_,
+                "original_shapes_": self.original_shapes_,
+            }
+        )
 
     @classmethod
     def deserialize(
@@ -171,6 +175,7 @@ class OneHot(Scaler):
             encoder
                 An instance of OneHot with the restored state.
         """
+        state = copy_containers(state)
         encoder = cls()
         encoder.unique_vals_ = state["unique_vals_"]
         encoder.original_shapes_ = state["original_shapes_"]
diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index fb30ca7..b356590 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -4,6 +4,7 @@ import jax
 import jax.numpy as np
 from jaxtyping import Array, PyTree, Real
 
+from ..tree_util import copy_containers
 from ..typing import (
     Any,
     BatchlessRealDataFixed,
@@ -243,14 +244,17 @@ class RobustScaler(Scaler):
             state
                 A dictionary containing the scaler's parameters and state.
         """
-        return {
-            "quantile_range": (self.q_low, self.q_high),
-            "with_centering": self.with_centering,
-            "with_scaling": self.with_scaling,
-            "eps": self.eps,
-            "scale_": self.scale_,
-            "median_": self.median_,
-        }
+        # what is handed out does not share containers with the scaler
+        return copy_containers(
+            {
+                "quantile_range": (self.q_low, self.q_high),
+                "with_centering": self.with_centering,
+                "with_scaling": self.with_scaling,
+                "eps": self.eps,
+                "scale_": self.scale_,
+                "median_": self.median_,
+            }
+        )
 
     @classmethod
     def deserialize(
@@ -270,6 +274,7 @@ class RobustScaler(Scaler):
             scaler
                 An instance of RobustScaler with the restored state.
         """
+        state = copy_containers(state)
         scaler = cls(
             quantile_range=state["quantile_range"],
             with_centering=state["with_centering"],
diff --git a/parametricmatrixmodels/preprocessing/standard_scaler.py b/parametricmatrixmodels/preprocessing/standard_scaler.py
index a8a1075..f0a860f 100644
--- a/parametricmatrixmodels/preprocessing/standard_scaler.py
+++ b/parametricmatrixmodels/preprocessing/standard_scaler.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import jax
 import jax.numpy as np
 
+from ..tree_util import copy_containers
 from ..typing import Any, BatchlessRealDataFixed, Dict, RealDataFixed
 from .scaler import Scaler
 
@@ -116,10 +117,13 @@ class StandardScaler(Scaler):
             state
                 A dictionary containing the scaler's parameters and state.
         """
-        return {
-            "mean_": self.mean_,
-            "scale_": self.scale_,
-        }
+        # what is handed out does not share containers with the scaler
+        return copy_containers(
+            {
+                "mean_": self.mean_,
+                "scale_": self.scale_,
+            }
+        )
 
     @classmethod
     def deserialize(
@@ -139,6 +143,7 @@ class StandardScaler(Scaler):
             scaler
                 An instance of StandardScaler with the restored state.
         """
+        state = copy_containers(state)
         scaler = cls()
         scaler.mean_ = state["mean_"]
         scaler.scale_ = state["scale_"]
-- 
2.43.0


From cf4e94616d61f38ea7eedbb2ca8dcd45c6710eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:13 +0000
Subject: [PATCH 35/35] fix: damaged files are not loaded with unreadable
 members taken as empty bytes

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 8 ++++++++
 parametricmatrixmodels/model.py                        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index ef55369..1419fce 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1767,6 +1767,14 @@ class ConformalizedModel(object):
         # convert npz object to dict
         data = {key: data[key] for key in data.files}
 
+        # numpy returns the raw bytes of members that aren't arrays, which
+        # only happens if the file is damaged
+        for key, value in data.items():
+            if isinstance(value, bytes):
+                raise ValueError(
+                    f"Could not read '{key}' from {file}: not a saved array."
+                )
+
         # convert certain items back to lists or bare values
         if isinstance(data["model"], (onp.ndarray, np.ndarray)):
             data["model"] = data["model"].item()
diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 19b87d6..347535f 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1865,6 +1865,14 @@ class Model(BaseModule):
         # first convert data to a dictionary
         data = {key: data[key] for key in data.files}
 
+        # numpy returns the raw bytes of members that aren't arrays, which
+        # only happens if the file is damaged
+        for key, value in data.items():
+            if isinstance(value, bytes):
+                raise ValueError(
+                    f"Could not read '{key}' from {file}: not a saved array."
+                )
+
         # then convert certain items back to lists or bare values
         if isinstance(data["module_typenames"], (onp.ndarray, np.ndarray)):
             data["module_typenames"] = data["module_typenames"].tolist()
-- 
2.43.0

