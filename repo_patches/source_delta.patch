From 1d268a88ea276631505775789be5d17ec10308af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 01/51] fix: line up the masked mean and std with the data
 along axis in MaskStd and MaskNormalize

---
 src/wax/flax/modules/mask_normalize.py | 3 +++
 src/wax/modules/mask_normalize.py      | 4 ++++
 src/wax/modules/mask_std.py            | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..f964cea 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -52,6 +52,9 @@ class MaskNormalize(nn.Module):
         def normalize_fn(x):
             # Compute standard deviation over masked regions
             x_std = self.mask_std(mask, x)
+            if self.axis is not None:
+                # keep the reduced axis so that the scale lines up with the data
+                x_std = jnp.expand_dims(x_std, self.axis)
 
             # Normalize by dividing by standard deviation
             x_normalized = x / x_std
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..5a9f734 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,9 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                # keep the reduced axis so that the scale lines up with the data
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..8333c15 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -52,6 +52,9 @@ class MaskStd(hk.Module):
 
             count = mask.sum(axis=self.axis)
             mean = x.sum(axis=self.axis) / count
+            if self.axis is not None:
+                # keep the reduced axis so that the mean lines up with the data
+                mean = jnp.expand_dims(mean, self.axis)
 
             if self.assume_centered:
                 diff = x
-- 
2.43.0


From af3092fc564b328f1eee6fb45523d676170bcc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 02/51] fix: Flax OHLC ignores missing inputs instead of
 poisoning the bin

---
 src/wax/flax/modules/ohlc.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 6786b26..f8dadfe 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -56,9 +56,6 @@ class OHLC(nn.Module):
         input = jnp.asarray(input)
         reset_on = jnp.asarray(reset_on)
 
-        # Use reset signal directly
-        should_reset = reset_on
-
         # Initialize OHLC state variables
         open_val = self.variable(
             "state", "open", lambda: jnp.full(input.shape, jnp.nan, input.dtype)
@@ -71,26 +68,20 @@ class OHLC(nn.Module):
             "state", "close", lambda: jnp.full(input.shape, jnp.nan, input.dtype)
         )
 
-        # Get current state values
-        current_open = open_val.value
-        current_high = high_val.value
-        current_low = low_val.value
-        # The previous close is never needed: CLOSE is always the latest input.
-
-        # Determine if this is the first valid input or a reset
-        is_first_or_reset = should_reset | jnp.isnan(current_open)
-
-        # Update OPEN: set to input if first/reset, otherwise keep current
-        new_open = jnp.where(is_first_or_reset, input, current_open)
-
-        # Update HIGH: max of current high and input, or input if first/reset
-        new_high = jnp.where(is_first_or_reset, input, jnp.maximum(current_high, input))
+        # Start a new bin on reset
+        current_open = jnp.where(reset_on, jnp.nan, open_val.value)
+        current_high = jnp.where(reset_on, jnp.nan, high_val.value)
+        current_low = jnp.where(reset_on, jnp.nan, low_val.value)
+        current_close = jnp.where(reset_on, jnp.nan, close_val.value)
 
-        # Update LOW: min of current low and input, or input if first/reset
-        new_low = jnp.where(is_first_or_reset, input, jnp.minimum(current_low, input))
+        # Missing inputs leave the bin unchanged
+        new_close = jnp.where(jnp.isnan(input), current_close, input)
 
-        # Update CLOSE: always set to current input
-        new_close = input
+        # The first valid input of a bin opens it
+        is_first = jnp.isnan(current_open)
+        new_open = jnp.where(is_first, new_close, current_open)
+        new_high = jnp.where(is_first, new_close, jnp.maximum(current_high, new_close))
+        new_low = jnp.where(is_first, new_close, jnp.minimum(current_low, new_close))
 
         # Update state variables
         open_val.value = new_open
-- 
2.43.0


From 02b09d556d11df6f1baf3e261f35ddd3f1549752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 03/51] fix: gym_static_unroll keeps the output of the first
 observation when skip_first is false

---
 src/wax/unroll.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..9d06e47 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -417,8 +417,7 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
     if not skip_first:
         y, state = gym_fun.apply(params, state, next(seq), obs)
         y, treedef = tree_flatten(y)
-        if ys is None:
-            ys = tuple([] for _ in y)
+        ys = tuple([y_] for y_ in y)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From caf1fa4106dd8632614b118c36aa0770cbe9cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 04/51] fix: static_scan accepts xs=None with a length, as
 jax.lax.scan does

---
 src/wax/unroll.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 9d06e47..1faea52 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -258,10 +258,12 @@ def static_scan(scan_f, init, xs=None, length=None, pbar=False):
     See https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.scan.html#jax-lax-scan
     """
     if xs is None:
-        xs = [None] * length
+        steps = iter([None] * length)
+    else:
+        steps = iter_first_axis(xs, pbar=pbar)
     carry = init
     ys = None
-    for x in iter_first_axis(xs, pbar=pbar):
+    for x in steps:
         carry, y = scan_f(carry, x)
 
         y, treedef = tree_flatten(y)
-- 
2.43.0


From 64a53723a2f7775f86fc8c411d35a7c045ee2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 05/51] fix: dynamic_unroll_fori_loop gives every step its own
 random key

---
 src/wax/unroll.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 1faea52..2f22f94 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -358,7 +358,11 @@ def dynamic_unroll_fori_loop(
     def body_fun(i, loop_state):
         params, prev_state, rng, inputs, output_sequence = loop_state
         args_i, kwargs_i = tree_map(lambda x: x[i], inputs)
-        outputs, next_state = fun.apply(params, prev_state, rng, *args_i, **kwargs_i)
+        if rng is not None:
+            rng, sub_rng = jax.random.split(rng)
+        else:
+            sub_rng = None
+        outputs, next_state = fun.apply(params, prev_state, sub_rng, *args_i, **kwargs_i)
         output_sequence = output_sequence.at[i].set(outputs)
         return LoopState(
             params,
-- 
2.43.0


From 14a6ace973c7b14c588776bb51e8f93e1673e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 06/51] fix: batch transforms and streaming scans give every
 step its own random key

---
 src/wax/flax/core/streaming_transforms.py | 26 +++++++++++++++--------
 src/wax/transform.py                      | 12 +++++++++--
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..e72eff9 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -430,11 +430,15 @@ class StreamingTransform:
             Tuple of (outputs, final_state)
         """
 
-        def scan_fn(carry_state, x):
-            output, new_state = self.apply(params, carry_state, rng, x, **kwargs)
-            return new_state, output
-
-        final_state, outputs = jax.lax.scan(scan_fn, state, inputs)
+        def scan_fn(carry, x):
+            carry_state, key = carry
+            sub_key = None
+            if key is not None:
+                key, sub_key = jax.random.split(key)
+            output, new_state = self.apply(params, carry_state, sub_key, x, **kwargs)
+            return (new_state, key), output
+
+        (final_state, _), outputs = jax.lax.scan(scan_fn, (state, rng), inputs)
         return outputs, final_state
 
 
@@ -674,9 +678,13 @@ def streaming_scan(
                 params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
 
             # Create scan function that applies streaming function element by element
-            def scan_body(carry_state, x):
+            def scan_body(carry, x):
+                carry_state, key = carry
+                sub_key = None
+                if key is not None:
+                    key, sub_key = jax.random.split(key)
                 # Apply streaming function to single element
-                output, new_state = streaming_fn.apply(params, carry_state, rng, x)
+                output, new_state = streaming_fn.apply(params, carry_state, sub_key, x)
 
                 # Check if we should reset state (JAX-compatible)
                 if reset_on is not None:
@@ -691,10 +699,10 @@ def streaming_scan(
                             state,
                         )
 
-                return new_state, output
+                return (new_state, key), output
 
             # Apply scan
-            final_state, outputs = jax.lax.scan(scan_body, state, inputs)
+            (final_state, _), outputs = jax.lax.scan(scan_body, (state, rng), inputs)
             return outputs, final_state
 
         # Create a simple object with scan_apply method for compatibility
diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..969eaf8 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -43,7 +43,11 @@ def transform_batch_with_state(fun, skip_first=False):
 
     def scan_f(prev_state, inputs):
         fun_params, fun_state, key = prev_state
-        outputs, fun_state = fun.apply(fun_params, fun_state, key, inputs)
+        if key is not None:
+            key, sub_key = jax.random.split(key)
+        else:
+            sub_key = None
+        outputs, fun_state = fun.apply(fun_params, fun_state, sub_key, inputs)
         return BatchState(fun_params, fun_state, key), outputs
 
     def init(key, xs):
@@ -71,7 +75,11 @@ def transform_batch_with_state_static(fun, skip_first=False, pbar=True):
 
     def scan_f(prev_state, inputs):
         fun_params, fun_state, key = prev_state
-        outputs, fun_state = fun.apply(fun_params, fun_state, key, inputs)
+        if key is not None:
+            key, sub_key = jax.random.split(key)
+        else:
+            sub_key = None
+        outputs, fun_state = fun.apply(fun_params, fun_state, sub_key, inputs)
         return BatchState(fun_params, fun_state, key), outputs
 
     def init(key, xs):
-- 
2.43.0


From 5089156d8491ae4e78887a3683f5485f1c1cebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 07/51] fix: streaming_scan keeps given params, state and key;
 batch transform uses the given key

---
 src/wax/flax/core/streaming_transforms.py | 5 ++++-
 src/wax/transform.py                      | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index e72eff9..de97393 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -675,7 +675,10 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = jax.random.PRNGKey(0) if rng is None else rng
+                init_params, init_state = streaming_fn.init(init_rng, sample_input)
+                params = init_params if params is None else params
+                state = init_state if state is None else state
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry, x):
diff --git a/src/wax/transform.py b/src/wax/transform.py
index 969eaf8..af4d358 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -59,9 +59,10 @@ def transform_batch_with_state(fun, skip_first=False):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
         # we drop the first observation because it has been used in initialization....
+        init_state = state if key is None else BatchState(state.fun_params, state.fun_state, key)
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From 305b9b283fb7b651929793dc2d549abf0b237795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 08/51] fix: OptaxOptimizer passes the parameters to the
 optimizer update

---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From 51d484f21f1396e272566e8e54018631f602393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 09/51] fix: Flax online optimizers keep default predicates and
 non-trainable parameters

---
 src/wax/flax/modules/online_optimizer.py | 29 ++++++++++++------------
 src/wax/flax/modules/update_params.py    | 23 ++++++++-----------
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..3c40954 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -20,8 +20,11 @@ from typing import Any
 import flax.linen as nn
 import jax
 import jax.numpy as jnp
+from flax.traverse_util import flatten_dict, unflatten_dict
 from jax.tree_util import tree_map
 
+from wax.predicate import pass_all_predicate
+
 from .optax_optimizer import OptaxOptimizer
 
 
@@ -51,12 +54,6 @@ class OnlineOptimizer(nn.Module):
 
     def setup(self):
         """Setup the OnlineOptimizer module."""
-        # Set default predicate if none provided
-        if self.params_predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.params_predicate = pass_all_predicate
-
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
             if hasattr(self.opt, "init") and hasattr(self.opt, "update"):
@@ -127,28 +124,32 @@ class OnlineOptimizer(nn.Module):
         def partition_params(params):
             trainable = {}
             non_trainable = {}
-
-            from flax.traverse_util import flatten_dict, unflatten_dict
+            predicate = (
+                self.params_predicate if self.params_predicate is not None else pass_all_predicate
+            )
 
             flat_params = flatten_dict(params, sep="/")
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                if predicate(path[0] if path else "", path[-1] if path else "", value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
 
             return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
 
+        def merge_params(trainable, non_trainable):
+            flat_params = flatten_dict(non_trainable)
+            flat_params.update(flatten_dict(trainable))
+            return unflatten_dict(flat_params)
+
         trainable_params, non_trainable_params = partition_params(params)
 
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -184,9 +185,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_params(updated_trainable_params, non_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..be9062a 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -20,6 +20,8 @@ import flax.linen as nn
 import jax
 from flax.traverse_util import flatten_dict, unflatten_dict
 
+from wax.predicate import pass_all_predicate
+
 
 class UpdateParams(nn.Module):
     """Flax-based module for separating trainable from non-trainable parameters.
@@ -31,14 +33,6 @@ class UpdateParams(nn.Module):
     fun: Callable  # Function to wrap
     predicate: Callable | None = None  # Predicate to determine trainable params
 
-    def setup(self):
-        """Setup the UpdateParams module."""
-        # Set default predicate if none provided
-        if self.predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.predicate = pass_all_predicate
-
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
         """Apply function with parameter partitioning.
@@ -78,9 +72,11 @@ class UpdateParams(nn.Module):
         Returns:
             Tuple of (trainable_params, non_trainable_params)
         """
+        predicate = self.predicate if self.predicate is not None else pass_all_predicate
+
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if predicate("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +94,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if predicate(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
@@ -130,10 +126,9 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            flat_params = flatten_dict(non_trainable_params)
+            flat_params.update(flatten_dict(trainable_params))
+            return unflatten_dict(flat_params)
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From 46c0aead05e14e1d691172dd449aaadc0f6dae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 10/51] fix: Flax online learners train the model parameters

---
 .../flax/modules/online_supervised_learner.py | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/modules/online_supervised_learner.py b/src/wax/flax/modules/online_supervised_learner.py
index 38651a7..52a623d 100644
--- a/src/wax/flax/modules/online_supervised_learner.py
+++ b/src/wax/flax/modules/online_supervised_learner.py
@@ -22,6 +22,27 @@ import jax.numpy as jnp
 from .func_optimizer import FuncOptimizer
 
 
+class _ModelLoss:
+    """Combined model and loss, returning the loss and the predictions.
+
+    For a Flax model, ``init`` and ``apply`` expose its variables, such that
+    ``FuncOptimizer`` can differentiate with respect to them and train them.
+    """
+
+    def __init__(self, model: Callable, loss_fn: Callable):
+        self.model = model
+        self.loss_fn = loss_fn
+        if hasattr(model, "init") and hasattr(model, "apply"):
+            self.init = lambda rng, x, y: model.init(rng, x)
+            self.apply = lambda variables, x, y: self._loss(model.apply(variables, x), y)
+
+    def _loss(self, predictions, y):
+        return self.loss_fn(predictions, y), predictions
+
+    def __call__(self, x, y):
+        return self._loss(self.model(x), y)
+
+
 class OnlineSupervisedLearner(nn.Module):
     """Flax-based online supervised learning module.
 
@@ -37,21 +58,9 @@ class OnlineSupervisedLearner(nn.Module):
     def setup(self):
         """Setup the OnlineSupervisedLearner module."""
 
-        # Create a combined function that applies model and computes loss
-        def model_loss_fn(x, y):
-            """Combined model and loss function."""
-            # Apply model to get predictions
-            predictions = self.model(x)
-
-            # Compute loss
-            loss = self.loss_fn(predictions, y)
-
-            # Return loss and predictions as auxiliary data
-            return loss, predictions
-
         # Create function optimizer
         self.func_optimizer = FuncOptimizer(
-            fun=model_loss_fn,
+            fun=_ModelLoss(self.model, self.loss_fn),
             opt=self.opt,
             has_aux=True,  # Returns predictions as auxiliary data
             params_predicate=self.params_predicate,
-- 
2.43.0


From e7d15827331cb5a03926d1634c9ba51fc62a3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 11/51] fix: unroll_stream(skip_first=True) collects every leaf
 separately

---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..cb79b50 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -303,7 +303,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in obs_flat]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From 9eda0a925ced9c588c94b295be942b61cdbe0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 12/51] fix: variables without time dimension are constant over
 the steps

---
 src/wax/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index cb79b50..a3eeab8 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -225,9 +225,9 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
             else:
                 values_atleast_1d = onp.atleast_1d(var.values)
                 # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                first_dim_idx = onp.arange(len(values_atleast_1d))
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
+                    onp.tile(first_dim_idx, (n_steps, 1)),
                     dims=("step", cast(str, dim) + "_flat_idx"),
                 )
     return dataset_index
-- 
2.43.0


From 86c7325b08dcb3084d1df5afd8785cfc18f44758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 13/51] fix: access_data masks missing observations of buffered
 multi-dimensional variables

---
 src/wax/stream.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index a3eeab8..9c85a63 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -358,10 +358,14 @@ def access_data(step: int, x: Any, idx: Any):
     """
     step_idx = idx[step]
     # output = x[step_idx]
+    value = jnp.atleast_1d(x)[step_idx]
+    missing = step_idx < 0
+    # align the mask with the leading (index) dimensions of the value
+    missing = jnp.reshape(missing, jnp.shape(missing) + (1,) * (value.ndim - jnp.ndim(missing)))
     output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
+        missing,
+        jnp.full_like(value, DTYPE_INIT_VALUES[x.dtype.type]),
+        value,
     )
     return output
 
-- 
2.43.0


From bd48fb2543d54678b9e1d8b292e475217a459297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 14/51] fix: Stream.merge buffers the first observation of a
 secondary stream once

---
 src/wax/stream.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 9c85a63..14d7dc2 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -638,6 +638,11 @@ class Stream:
 
         original_streams = streams.copy()
         local_time = self.get_local_time(streams)
+        # streams repeat their first observation after their initialization: drop the
+        # repetition so that it enters the buffers of the secondary streams only once
+        for time_dim, stream in streams.items():
+            if time_dim != local_time:
+                stream_obs[time_dim] = next(stream)
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From e936d2cd26d8fb2c38568c053d25ff44e8b5596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 15/51] fix: less orders encoded negative integers (dates
 before 1970) correctly

---
 src/wax/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index ce6c11d..4c09652 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -201,6 +201,8 @@ def datetime64_encoder(values: Any) -> Encoder:
 def less(t1, t2):
     h1, l1 = t1
     h2, l2 = t2
+    # the high word carries the sign of the encoded integer
+    h1, h2 = onp.asarray(h1).astype(onp.int32), onp.asarray(h2).astype(onp.int32)
     if h1 < h2:
         return True
     elif h1 > h2:
-- 
2.43.0


From 9ccf8e6556112f7cbd03201f23afd1e313039449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 16/51] fix: accessors format the outputs of
 apply(skip_first=True) with matching coordinates

---
 src/wax/accessors.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..83ea284 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -24,12 +24,20 @@ import xarray as xr
 from jax.tree_util import tree_map
 
 from wax.format import format_dataarray, format_dataframe, format_dataset, format_series
-from wax.stream import Stream
+from wax.stream import Stream, get_dataset_time_coords
 
 # DTypeLike = TypeVar("DTypeLike")
 DTypeLike = str
 
 
+def _get_output_coords(stream: Stream, dataset: xr.Dataset, skip_first: bool):
+    """Coordinates of the outputs: there is no output at the first local time if skip_first."""
+    if not skip_first:
+        return dataset.coords
+    local_time = stream.get_local_time(dict.fromkeys(get_dataset_time_coords(dataset)))
+    return dataset.isel({local_time: slice(1, None)}).coords
+
+
 @dataclass(frozen=True)
 class StreamDataset(Stream):
     """
@@ -74,12 +82,13 @@ class StreamDataset(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
             try:
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -137,15 +146,16 @@ class StreamDataArray(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -215,13 +225,14 @@ class StreamDataFrame(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
 
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -230,7 +241,7 @@ class StreamDataFrame(Stream):
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -292,15 +303,16 @@ class StreamSeries(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
         else:
-- 
2.43.0


From 0a527da2430f0786c28ed40ce3cf786501a959a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 17/51] fix: accessors label every output of apply with the
 container's dims up to its rank

---
 src/wax/accessors.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 83ea284..1321cf7 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -38,6 +38,11 @@ def _get_output_coords(stream: Stream, dataset: xr.Dataset, skip_first: bool):
     return dataset.isel({local_time: slice(1, None)}).coords
 
 
+def _get_leaf_dims(dims: tuple, outputs: Any):
+    """Dims of every output: the leading dims of the input, up to the rank of the output."""
+    return tree_map(lambda x: onp.array(dims[: x.ndim], dtype=object), outputs)
+
+
 @dataclass(frozen=True)
 class StreamDataset(Stream):
     """
@@ -147,11 +152,13 @@ class StreamDataArray(Stream):
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
             coords = _get_output_coords(self, dataset, skip_first)
+            dims = format_dims
             if format_dims is None:
                 format_dims = dataarray.dims
+                dims = _get_leaf_dims(format_dims, outputs)
 
             try:
-                outputs = format_dataarray(coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
@@ -227,14 +234,16 @@ class StreamDataFrame(Stream):
             outputs = tree_map(lambda x: onp.array(x), outputs)
             coords = _get_output_coords(self, dataset, skip_first)
 
+            dims = format_dims
             if format_dims is None:
                 format_dims = dataarray.dims
+                dims = _get_leaf_dims(format_dims, outputs)
 
             try:
                 outputs = format_dataframe(
                     coords,
                     outputs,
-                    format_dims,
+                    dims,
                     index_nlevels=dataframe.index.nlevels,
                 )
             except ValueError:
@@ -304,11 +313,13 @@ class StreamSeries(Stream):
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
             coords = _get_output_coords(self, dataset, skip_first)
+            dims = format_dims
             if format_dims is None:
                 format_dims = dataarray.dims
+                dims = _get_leaf_dims(format_dims, outputs)
 
             try:
-                outputs = format_series(coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-- 
2.43.0


From 57610de94abf5e5d6c67160e0ec1ef94f991122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 18/51] fix: let add_batch run without a PRNG key and
 initialise with the same parameters structure as apply

---
 src/wax/modules/vmap.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wax/modules/vmap.py b/src/wax/modules/vmap.py
index 899c8e4..66c17f2 100644
--- a/src/wax/modules/vmap.py
+++ b/src/wax/modules/vmap.py
@@ -44,10 +44,9 @@ def add_batch(fun: Callable | TransformedWithState, take_mean=True):
     It should be used inside a transformed function."""
 
     def fun_batch(*args, **kwargs):
-        try:
-            res = vmap_lift_with_state(fun, split_rng=True)(*args, **kwargs)
-        except ValueError:
-            res = vmap_lift_with_state(fun, split_rng=False)(*args, **kwargs)
+        # Without PRNG key (e.g. apply called with rng=None) no key can be split over the batch.
+        has_rng = hk.maybe_get_rng_sequence_state() is not None
+        res = vmap_lift_with_state(fun, split_rng=has_rng, init_rng=has_rng)(*args, **kwargs)
 
         if take_mean:
             res = jax.tree_util.tree_map(lambda x: x.mean(axis=0), res)
-- 
2.43.0


From 797b341f2b78676d36f5f91e6abb91856e076425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 19/51] fix: Flax ARMA keeps previous outputs and previous
 inputs instead of zeros and the current input

---
 src/wax/flax/modules/arma.py | 65 ++++++++++++++----------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..9079751 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -40,26 +40,7 @@ class ARMA(nn.Module):
     alpha: jnp.ndarray  # AR coefficients
     beta: jnp.ndarray  # MA coefficients
 
-    def setup(self) -> None:
-        """Setup the ARMA module."""
-        # Validate coefficients
-        if self.alpha.ndim != 1:
-            raise ValueError("alpha must be a 1-D array")
-        if self.beta.ndim != 1:
-            raise ValueError("beta must be a 1-D array")
-
-        # Create buffers for AR and MA components
-        # AR buffer stores previous outputs
-        if len(self.alpha) > 0:
-            self.ar_buffer = Buffer(maxlen=len(self.alpha), fill_value=0.0)
-
-        # MA buffer stores previous inputs (noise terms)
-        if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
-
-        # Module for handling NaN/Inf values
-        self.fill_nan_inf = FillNanInf()
-
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -69,38 +50,42 @@ class ARMA(nn.Module):
         Returns:
             Filtered output from ARMA model
         """
+        # Validate coefficients
+        if self.alpha.ndim != 1:
+            raise ValueError("alpha must be a 1-D array")
+        if self.beta.ndim != 1:
+            raise ValueError("beta must be a 1-D array")
+
         # Ensure input is an array
         eps = jnp.asarray(eps)
+        dtype = jnp.result_type(eps, self.alpha, self.beta)
 
         # Initialize output with current input (eps term)
         output = eps
 
-        # Autoregressive component: sum(alpha[i] * y[t-i])
+        # Autoregressive component: sum(alpha[i] * y[t-i]) over previous outputs
+        y_history = self.variable(
+            "state",
+            "y_history",
+            lambda: jnp.zeros((len(self.alpha),) + eps.shape, dtype),
+        )
         if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
-
-            # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
-            output = output + ar_contribution
+            output = output + jnp.tensordot(self.alpha, y_history.value, axes=1)
 
-        # Moving average component: sum(beta[j] * eps[t-j])
+        # Moving average component: sum(beta[j] * eps[t-j]) over previous inputs
         if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
+            # The buffer is built with return_state left at its default (False),
+            # so the call yields the array alone; its last row is the current input.
+            eps_buffer = Buffer(maxlen=len(self.beta) + 1, fill_value=0.0, name="ma_buffer")
+            eps_history = cast(jnp.ndarray, eps_buffer(eps))[:-1]
+            output = output + jnp.tensordot(self.beta, eps_history, axes=1)
 
-            # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
-            output = output + ma_contribution
+        # Handle NaN/Inf values
+        output = FillNanInf()(output)
 
-        # Update AR buffer with current output
+        # Store current output for next iteration
         if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
-
-        # Handle NaN/Inf values
-        output = self.fill_nan_inf(output)
+            y_history.value = jnp.concatenate([y_history.value[1:], output[None].astype(dtype)])
 
         return output
 
-- 
2.43.0


From dbcd0faa1d47e8a0fefb5b60dbd42f4dcca25e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 20/51] fix: ProgressBar is usable in a with statement (return
 the entered callback)

---
 src/wax/gym/callbacks/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/progressbar.py b/src/wax/gym/callbacks/progressbar.py
index 598c7c8..9630eba 100644
--- a/src/wax/gym/callbacks/progressbar.py
+++ b/src/wax/gym/callbacks/progressbar.py
@@ -22,7 +22,7 @@ class ProgressBar(Callback):
         self._pbar = None
 
     def __enter__(self):
-        super().__enter__()
+        return super().__enter__()
 
     def _on_train_start(self, env, agent, obs):
         if self._pbar is None:
-- 
2.43.0


From f61bb898e6bab0e6ab8ede4f58196489c2df7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 21/51] fix: wax.gym.callbacks exports the callbacks its
 __all__ promises, and only those

---
 src/wax/gym/callbacks/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/__init__.py b/src/wax/gym/callbacks/__init__.py
index 9200b49..21d44ae 100644
--- a/src/wax/gym/callbacks/__init__.py
+++ b/src/wax/gym/callbacks/__init__.py
@@ -14,5 +14,8 @@
 """Callbacks to work with `wax.gym.gym_unroll`"""
 
 from wax.gym.callbacks.callbacks import Callback
+from wax.gym.callbacks.progressbar import ProgressBar
+from wax.gym.callbacks.record import Record
+from wax.gym.callbacks.stop import Stop
 
-__all__ = ["Callback", "Metric", "ProgressBar", "Record", "OldRecord", "Stop"]
+__all__ = ["Callback", "ProgressBar", "Record", "Stop"]
-- 
2.43.0


From 72cde406dd0592c730206838bba45f91e5afcde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 22/51] fix: HierarchicalState, ConditionalStateUpdate and
 StreamingStateMachine keep their constructor arguments

---
 src/wax/flax/core/streaming_transforms.py | 71 ++++-------------------
 1 file changed, 12 insertions(+), 59 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index de97393..23e1f30 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -18,7 +18,7 @@ programming with JAX/Flax's functional paradigms, similar to how Haiku's
 transform functions worked.
 """
 
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from typing import Any, TypeVar
 
 import jax
@@ -72,21 +72,8 @@ class HierarchicalState(StreamingStatePattern):
     with proper state management and composition.
     """
 
-    modules: dict[str, nn.Module]
-    dependencies: dict[str, list[str]]  # Module dependency graph
-
-    def __init__(
-        self, modules: dict[str, nn.Module], dependencies: dict[str, list[str]] | None = None
-    ):
-        """Initialize hierarchical state manager.
-
-        Args:
-            modules: Dictionary mapping module names to module instances
-            dependencies: Optional dependency graph for execution order
-        """
-        super().__init__()
-        self.modules = modules
-        self.dependencies = dependencies or {}
+    modules: Mapping[str, nn.Module]  # Module names and instances
+    dependencies: Mapping[str, list[str]] | None = None  # Module dependency graph
 
     def setup(self):
         """Register all modules for proper state management."""
@@ -115,10 +102,9 @@ class HierarchicalState(StreamingStatePattern):
         module_inputs = {}
 
         # Add dependencies from other modules
-        if module_name in self.dependencies:
-            for dep in self.dependencies[module_name]:
-                if dep in computed_outputs:
-                    module_inputs[dep] = computed_outputs[dep]
+        for dep in (self.dependencies or {}).get(module_name, ()):
+            if dep in computed_outputs:
+                module_inputs[dep] = computed_outputs[dep]
 
         # Add initial inputs that match parameter names
         # This is a simplified approach - can be enhanced
@@ -138,24 +124,9 @@ class ConditionalStateUpdate(StreamingStatePattern):
     their state when specific conditions are met.
     """
 
-    module: nn.Module
-    condition_fn: Callable[..., bool]
-    reset_on_condition: bool
-
-    def __init__(
-        self, module: nn.Module, condition_fn: Callable[..., bool], reset_on_condition: bool = False
-    ):
-        """Initialize conditional state updater.
-
-        Args:
-            module: The module to conditionally update
-            condition_fn: Function that determines when to update
-            reset_on_condition: Whether to reset state when condition is met
-        """
-        super().__init__()
-        self.module = module
-        self.condition_fn = condition_fn
-        self.reset_on_condition = reset_on_condition
+    module: nn.Module  # The module to conditionally update
+    condition_fn: Callable[..., bool]  # Determines when to update
+    reset_on_condition: bool = False  # Whether to reset state when condition is met
 
     def setup(self):
         """Register the wrapped module."""
@@ -190,27 +161,9 @@ class StreamingStateMachine(StreamingStatePattern):
     and transition between them based on inputs and conditions.
     """
 
-    states: dict[str, nn.Module]
-    transitions: dict[str, dict[str, Callable[..., bool]]]
-    initial_state: str
-
-    def __init__(
-        self,
-        states: dict[str, nn.Module],
-        transitions: dict[str, dict[str, Callable[..., bool]]],
-        initial_state: str,
-    ):
-        """Initialize streaming state machine.
-
-        Args:
-            states: Dictionary mapping state names to modules
-            transitions: Transition conditions between states
-            initial_state: Name of the initial state
-        """
-        super().__init__()
-        self.states = states
-        self.transitions = transitions
-        self.initial_state = initial_state
+    states: Mapping[str, nn.Module]  # State names and modules
+    transitions: Mapping[str, Mapping[str, Callable[..., bool]]]  # Transition conditions
+    initial_state: str  # Name of the initial state
 
     def setup(self):
         """Register all state modules."""
-- 
2.43.0


From 4154f6c460be2bd1b3aca4dc70489ed7d97d21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 23/51] fix: state functions of conditional_update and
 state_machine may create modules

---
 src/wax/flax/core/streaming_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 23e1f30..bf17e10 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -242,6 +242,7 @@ def conditional_update(
         def wrapper(*args, **kwargs):
             # Create a simple module that wraps the function
             class ConditionalModule(nn.Module):
+                @nn.compact
                 def __call__(self, *args, **kwargs):
                     return fn(*args, **kwargs)
 
@@ -281,6 +282,7 @@ def state_machine(
                 class StateModule(nn.Module):
                     fn: Callable = state_fn
 
+                    @nn.compact
                     def __call__(self, *args, **kwargs):
                         return self.fn(*args, **kwargs)
 
-- 
2.43.0


From 192e4c570b672a8433a3466779fe979a548b08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 24/51] fix: HierarchicalStateMachine executes independent
 states in the given order, not in hash order

---
 src/wax/flax/core/advanced_state_patterns.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/core/advanced_state_patterns.py b/src/wax/flax/core/advanced_state_patterns.py
index d769df6..e70661c 100644
--- a/src/wax/flax/core/advanced_state_patterns.py
+++ b/src/wax/flax/core/advanced_state_patterns.py
@@ -83,7 +83,7 @@ class HierarchicalStateMachine(nn.Module):
 
         # Topological sort considering dependencies
         ordered = []
-        remaining = set(active_states)
+        remaining = list(active_states)
 
         while remaining:
             # Find states with no unfulfilled dependencies
@@ -95,11 +95,11 @@ class HierarchicalStateMachine(nn.Module):
 
             if not ready:
                 # Circular dependency or invalid - use arbitrary order
-                ready = [next(iter(remaining))]
+                ready = [remaining[0]]
 
             # Add ready states to execution order
             ordered.extend(ready)
-            remaining -= set(ready)
+            remaining = [state for state in remaining if state not in ready]
 
         return ordered
 
-- 
2.43.0


From b27fa0961a3eb4fa5c614c4f2e641790a696045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 25/51] fix: HierarchicalBuffer returns the stored levels
 between updates for every compression

---
 src/wax/flax/modules/compressed_buffer.py | 29 ++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..e356aaf 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -198,6 +198,22 @@ class CompressedBuffer(nn.Module):
         elif self.compression == "none":
             return self._no_compression_update(x)
 
+    def current(self) -> jnp.ndarray:
+        """Return the current compressed representation without adding an element.
+
+        At least one element must have been added before.
+        """
+        if self.compression == "ewma":
+            return cast(jnp.ndarray, self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return cast(jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"])
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        else:
+            return cast(jnp.ndarray, self.uncompressed_buffer.variables["state"]["buffer"])
+
     def _ewma_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update EWMA compressed representation."""
         # Update EWMA
@@ -398,12 +414,7 @@ class HierarchicalBuffer(nn.Module):
             medium_data = self.medium_buffer(x)
         else:
             # Return current medium buffer state
-            # Step 0 always updates (0 % 5 == 0), so the stored state is an array
-            # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            medium_data = self.medium_buffer.current()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
@@ -411,11 +422,7 @@ class HierarchicalBuffer(nn.Module):
             long_data = self.long_buffer(x)
         else:
             # Return current long buffer state
-            # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            long_data = self.long_buffer.current()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 71470bf55d3407d8158c00b0a5a425622ae17616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 26/51] fix: CompressedBuffer returns stored samples in arrival
 order between updates

---
 src/wax/flax/modules/compressed_buffer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index e356aaf..9b3840d 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -67,6 +67,12 @@ from .ewma import EWMA
 CompressionStrategy = Literal["ewma", "quantile", "downsample", "sketching", "none"]
 
 
+def _stored(buffer: Buffer) -> jnp.ndarray:
+    """Content of a buffer in arrival order (oldest first), without adding an element."""
+    state = buffer.variables["state"]
+    return jnp.roll(state["buffer"], -state["write_idx"], axis=0)
+
+
 class CompressedBuffer(nn.Module):
     """Buffer with compression for memory-efficient long sequence storage.
 
@@ -208,11 +214,11 @@ class CompressedBuffer(nn.Module):
         elif self.compression == "quantile":
             return self.quantile_estimates.value
         elif self.compression == "downsample":
-            return cast(jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"])
+            return _stored(self.downsampled_buffer)
         elif self.compression == "sketching":
             return jnp.min(self.sketch.value, axis=0)
         else:
-            return cast(jnp.ndarray, self.uncompressed_buffer.variables["state"]["buffer"])
+            return _stored(self.uncompressed_buffer)
 
     def _ewma_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update EWMA compressed representation."""
@@ -269,9 +275,7 @@ class CompressedBuffer(nn.Module):
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
             # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            downsampled_data = _stored(self.downsampled_buffer)
 
         self.sample_counter.value = counter + 1
         return downsampled_data
-- 
2.43.0


From c15bd5986f0725ce8696c3f007a83d9c095539c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 27/51] fix: profile_streaming records each apply once, with
 its data and duration

---
 src/wax/flax/debug/profiler.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..a793930 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -480,6 +480,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data: Any = None
+        self.output_data: Any = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,6 +493,8 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
@@ -543,21 +547,13 @@ def profile_streaming(
                 def profile_apply(params, state, rng, *args, **kwargs):
                     with profiler.start_step(actual_module_name) as ctx:
                         # Track input data if detailed tracking enabled
-                        input_data = args[0] if args and enable_detailed_tracking else None
+                        ctx.input_data = args[0] if args and enable_detailed_tracking else None
 
                         # Execute function
                         result = original_apply(params, state, rng, *args, **kwargs)
 
                         # Track output data if detailed tracking enabled
-                        output_data = result if enable_detailed_tracking else None
-
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        ctx.output_data = result if enable_detailed_tracking else None
 
                         return result
 
-- 
2.43.0


From be56551c868775972dbdb7c38db7b758946aea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 28/51] fix: monitoring decorators accept init/apply pairs
 without a __name__

---
 src/wax/flax/debug/debugger.py       | 2 +-
 src/wax/flax/debug/memory_tracker.py | 2 +-
 src/wax/flax/debug/profiler.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..c72a515 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -429,7 +429,7 @@ def debug_streaming(
         debugger = StreamingDebugger()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class DebugWrapper:
diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..df91ee5 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -660,7 +660,7 @@ def track_memory_usage(
         tracker = MemoryTracker()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class MemoryWrapper:
diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index a793930..ec0c89f 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -527,7 +527,7 @@ def profile_streaming(
         profiler = StreamingProfiler()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class ProfileWrapper:
-- 
2.43.0


From c5d660a3967fa9b626f848b8764764d7947ecd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 29/51] fix: monitor histories are bounded by max_history /
 max_snapshots

---
 src/wax/flax/debug/debugger.py       | 6 ++++--
 src/wax/flax/debug/memory_tracker.py | 8 ++++++--
 src/wax/flax/debug/profiler.py       | 6 +++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index c72a515..f9b2c51 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -213,7 +213,9 @@ class StreamingDebugger:
         self.hooks: dict[str, DebugHook] = {}
         self.global_events: deque[DebugEvent] = deque(maxlen=max_history)
         self.state_history: deque[Any] = deque(maxlen=max_history)
-        self.performance_data: dict[str, list[float]] = defaultdict(list)
+        self.performance_data: dict[str, deque[float]] = defaultdict(
+            lambda: deque(maxlen=max_history)
+        )
 
         # Tracking state
         self.current_step = 0
@@ -403,7 +405,7 @@ class StreamingDebugger:
                         ]
                         for name, hook in self.hooks.items()
                     },
-                    "performance_data": dict(self.performance_data),
+                    "performance_data": {k: list(v) for k, v in self.performance_data.items()},
                 }
             else:
                 raise ValueError(f"Unsupported export format: {format}")
diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index df91ee5..94f899b 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -127,8 +127,12 @@ class MemoryTracker:
         self.array_lifecycle: defaultdict[str, list[dict]] = defaultdict(list)
 
         # State tracking
-        self.state_memory_history: defaultdict[str, list[float]] = defaultdict(list)
-        self.module_memory_usage: defaultdict[str, list[float]] = defaultdict(list)
+        self.state_memory_history: defaultdict[str, deque[float]] = defaultdict(
+            lambda: deque(maxlen=max_snapshots)
+        )
+        self.module_memory_usage: defaultdict[str, deque[float]] = defaultdict(
+            lambda: deque(maxlen=max_snapshots)
+        )
 
         # Session tracking
         self.session_start_time = time.time()
diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index ec0c89f..58e32e1 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -143,7 +143,7 @@ class StreamingProfiler:
 
         # Profiling data
         self.metrics: deque[PerformanceMetrics] = deque(maxlen=max_history)
-        self.module_stats: dict[str, list[float]] = defaultdict(list)
+        self.module_stats: dict[str, deque[float]] = defaultdict(lambda: deque(maxlen=max_history))
 
         # Session tracking
         self.session_start_time = time.time()
@@ -295,7 +295,7 @@ class StreamingProfiler:
 
         # Store in result (we'll add this to ProfileResult later)
         if not hasattr(self, "_bottlenecks"):
-            self._bottlenecks = []
+            self._bottlenecks: deque[dict[str, Any]] = deque(maxlen=self.max_history)
         self._bottlenecks.append(bottleneck)
 
     def get_module_summary(self, module_name: str) -> dict[str, Any]:
@@ -435,7 +435,7 @@ class StreamingProfiler:
                 memory_stats = {}
 
             # Collect bottlenecks
-            bottlenecks = getattr(self, "_bottlenecks", [])
+            bottlenecks = list(getattr(self, "_bottlenecks", []))
 
             # Generate recommendations
             recommendations = self.generate_optimization_recommendations()
-- 
2.43.0


From 8d541382217c1cb87c6c180af3456dc4721d0830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 30/51] fix: memory leak growth rate is the slope per step, not
 multiplied by the snapshot interval

---
 src/wax/flax/debug/memory_tracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 94f899b..c3977f9 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -394,7 +394,7 @@ class MemoryTracker:
 
         if len(memory_values) >= 3:
             # Simple linear regression to detect trend
-            x_values = list(range(len(memory_values)))
+            x_values = [s.step for s in recent_snapshots]
             n = len(memory_values)
 
             # Calculate slope (growth rate)
@@ -405,8 +405,7 @@ class MemoryTracker:
             denominator = sum((x_values[i] - x_mean) ** 2 for i in range(n))
 
             if denominator > 0:
-                slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = numerator / denominator  # slope in MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0


From 24a643169194e57f559b32919572d4293da21b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 31/51] fix: generate_memory_report reads the detected leaks
 under the tracker's lock

---
 src/wax/flax/debug/memory_tracker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index c3977f9..aefce52 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -604,7 +604,10 @@ class MemoryTracker:
             report.append(f"  High Priority: {leaks['high_leaks']}")
 
             # Show details of critical leaks
-            critical_leaks = [leak for leak in self.detected_leaks if leak.severity == "critical"]
+            with self._lock:
+                critical_leaks = [
+                    leak for leak in self.detected_leaks if leak.severity == "critical"
+                ]
             for leak in critical_leaks[:3]:  # Show up to 3 critical leaks
                 report.append(f"\n  🔴 Critical Leak ({leak.leak_type}):")
                 report.append(f"     Total Leaked: {leak.total_leaked_mb:.1f} MB")
-- 
2.43.0


From e044a16774dc3bfbfa4eaa8dbbfd79759da42f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 32/51] fix: DataFlowTracker.get_recent_data(0) returns no
 points instead of all

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..c14cf1c 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -157,7 +157,7 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        return list(self.data_history)[-n_points:] if n_points > 0 else []
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
-- 
2.43.0


From 008d7e82a7bc3aaa7a138800185977a9759902d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 33/51] fix: dynamic_unroll_fori_loop accepts nested outputs

---
 src/wax/unroll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 2f22f94..d25d75d 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -363,7 +363,7 @@ def dynamic_unroll_fori_loop(
         else:
             sub_rng = None
         outputs, next_state = fun.apply(params, prev_state, sub_rng, *args_i, **kwargs_i)
-        output_sequence = output_sequence.at[i].set(outputs)
+        output_sequence = tree_map(lambda seq, out: seq.at[i].set(out), output_sequence, outputs)
         return LoopState(
             params,
             next_state,
-- 
2.43.0


From a9935354b027111a8a32592e286102d418f6e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 34/51] fix: the numba ewma does not change the state given by
 the caller

---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..3840c60 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # numba_apply updates these arrays in place: work on copies of the given state.
+        mean = np.array(state.mean)
+        old_wt = np.array(state.old_wt)
+        nobs = np.array(state.nobs)
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From a42174af92bc57feda6e3b8b5c561e84a6689469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 35/51] fix: reports and plots list modules and data types in a
 reproducible order

---
 src/wax/flax/debug/memory_tracker.py               | 4 ++--
 src/wax/flax/visualization/data_flow_visualizer.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index aefce52..f95d3fc 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -417,7 +417,7 @@ class MemoryTracker:
                             total_leaked=total_growth,
                             first_step=recent_snapshots[0].step,
                             last_step=recent_snapshots[-1].step,
-                            affected_modules=list(set(s.module_name for s in recent_snapshots)),
+                            affected_modules=sorted(set(s.module_name for s in recent_snapshots)),
                         )
 
         # Check for growing JAX arrays
@@ -431,7 +431,7 @@ class MemoryTracker:
                     total_leaked=sum(s.jax_arrays_size_mb for s in recent_snapshots[-3:]) / 3,
                     first_step=recent_snapshots[0].step,
                     last_step=recent_snapshots[-1].step,
-                    affected_modules=list(set(s.module_name for s in recent_snapshots)),
+                    affected_modules=sorted(set(s.module_name for s in recent_snapshots)),
                 )
 
     def _record_memory_leak(
diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index c14cf1c..9914710 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -335,7 +335,7 @@ class DataFlowVisualizer:
 
         # Summary statistics
         modules = {dp.module_name for dp in recent_data}
-        data_types_found = {dp.data_type for dp in recent_data}
+        data_types_found = sorted({dp.data_type for dp in recent_data})
 
         lines.append(f"Active modules: {len(modules)}")
         lines.append(f"Data types: {', '.join(data_types_found)}")
@@ -448,7 +448,7 @@ class DataFlowVisualizer:
         ax3.set_xlabel("Time (s)")
         ax3.set_ylabel("Module")
 
-        modules = list({dp.module_name for dp in recent_data})
+        modules = sorted({dp.module_name for dp in recent_data})
         module_y_pos = {mod: i for i, mod in enumerate(modules)}
 
         for dp in recent_data:
-- 
2.43.0


From ab11c53bb25b81cec125433edd069de0c6c28f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 36/51] fix: debugger snapshots do not alias nested containers
 and keep named tuples

---
 src/wax/flax/debug/debugger.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index f9b2c51..69a5280 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -41,6 +41,7 @@ from typing import Any, Protocol
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 
 class DebugCondition(Protocol):
@@ -131,10 +132,10 @@ class DebugHook:
     def _deep_copy_state(self, state: Any) -> Any:
         """Create a deep copy of state for debugging."""
         try:
-            if hasattr(state, "copy"):
+            if isinstance(state, (dict, list, tuple)):
+                return self._safe_copy(state)
+            elif hasattr(state, "copy"):
                 return state.copy()
-            elif isinstance(state, dict):
-                return {k: self._safe_copy(v) for k, v in state.items()}
             else:
                 return state
         except Exception:
@@ -145,6 +146,10 @@ class DebugHook:
         try:
             if isinstance(data, jnp.ndarray):
                 return jnp.copy(data)
+            elif isinstance(data, np.ndarray):
+                return data.copy()
+            elif isinstance(data, tuple) and hasattr(data, "_fields"):
+                return type(data)(*(self._safe_copy(item) for item in data))
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
@@ -329,8 +334,12 @@ class StreamingDebugger:
         try:
             if isinstance(tree, jnp.ndarray):
                 return jnp.copy(tree)
+            elif isinstance(tree, np.ndarray):
+                return tree.copy()
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
+            elif isinstance(tree, tuple) and hasattr(tree, "_fields"):
+                return type(tree)(*(self._safe_copy_tree(item) for item in tree))
             elif isinstance(tree, (list, tuple)):
                 return type(tree)(self._safe_copy_tree(item) for item in tree)
             else:
-- 
2.43.0


From f43bdf112c909c3c3b34b54eebbcdea5478cd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 37/51] fix: a performance monitor does not alert again at
 steps without duration

---
 src/wax/flax/debug/debugger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 69a5280..f1ba287 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -261,7 +261,10 @@ class StreamingDebugger:
 
         def slow_condition(step, state, input_data, output):
             execution_times = self.performance_data.get("execution_time", [])
-            return execution_times and execution_times[-1] * 1000 > threshold_ms
+            timed_steps = self.performance_data.get("step", [])
+            if not timed_steps or timed_steps[-1] != step:
+                return False  # this step has no recorded duration
+            return execution_times[-1] * 1000 > threshold_ms
 
         hook = DebugHook(name=f"perf_{name}", condition=slow_condition, action="alert")
         return self.add_hook(hook)
-- 
2.43.0


From 5acb0ba937329f2457624e8f8c9fede2c71d3385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 38/51] fix: debug events report a duration of zero

---
 src/wax/flax/debug/debugger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index f1ba287..c426cf9 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -297,7 +297,9 @@ class StreamingDebugger:
             for hook in self.hooks.values():
                 if hook.check_condition(self.current_step, state, input_data, output):
                     metadata = {
-                        "execution_time_ms": execution_time * 1000 if execution_time else None,
+                        "execution_time_ms": (
+                            execution_time * 1000 if execution_time is not None else None
+                        ),
                         "session_time": time.time() - self.session_start_time,
                     }
                     hook.trigger(
-- 
2.43.0


From 067053240793f8e9cbbf95ede0ef3edaf5f82698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:53 +0000
Subject: [PATCH 39/51] fix: the HTML page of a computation graph escapes names
 (a lambda was invisible)

---
 src/wax/flax/visualization/computation_graph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 136e6e2..7976d3b 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -35,6 +35,7 @@ import tempfile
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass, field
+from html import escape
 from typing import Any, Protocol, cast
 
 import jax
@@ -601,13 +602,13 @@ class ComputationGraphRenderer:
         for node_id, node in self.nodes.items():
             html += f"""
         <div class="node" style="background-color: {node.color}20;">
-            <strong>{node.name}</strong> ({node.module_type})
-            <br>ID: {node_id}
+            <strong>{escape(node.name)}</strong> ({escape(node.module_type)})
+            <br>ID: {escape(node_id)}
 """
             if self.include_shapes and node.input_shapes:
-                html += f"<br>Input shapes: {node.input_shapes}"
+                html += f"<br>Input shapes: {escape(str(node.input_shapes))}"
             if self.include_parameters and node.parameters:
-                html += f"<br>Parameters: {node.parameters}"
+                html += f"<br>Parameters: {escape(str(node.parameters))}"
             html += "</div>"
 
         html += f"""
@@ -619,7 +620,8 @@ class ComputationGraphRenderer:
 
         for edge in self.edges:
             label = f" [{edge.label}]" if edge.label else ""
-            html += f'<div class="edge">{edge.source} → {edge.target}{label}</div>'
+            text = escape(f"{edge.source} → {edge.target}{label}")
+            html += f'<div class="edge">{text}</div>'
 
         html += """
     </div>
-- 
2.43.0


From 110765127cf42c36c5a86dbdae029d5698fb1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:07 +0000
Subject: [PATCH 40/51] fix: the profiler counts NumPy arrays as zero bytes

---
 src/wax/flax/debug/profiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 58e32e1..12ae732 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -42,7 +42,6 @@ from dataclasses import dataclass, field
 from typing import Any
 
 import jax
-import jax.numpy as jnp
 import psutil
 
 
@@ -266,7 +265,7 @@ class StreamingProfiler:
         try:
             if data is None:
                 return 0
-            elif isinstance(data, jnp.ndarray):
+            elif hasattr(data, "nbytes"):  # JAX and NumPy arrays
                 return data.nbytes
             elif isinstance(data, (list, tuple)):
                 return sum(self._calculate_data_size(item) for item in data)
-- 
2.43.0


From 8b77b85df0dc902ca3e052b47eff292a2b151fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 41/51] fix: the memory estimate of a downsampled buffer can
 miss its only element

---
 src/wax/flax/modules/compressed_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index 9b3840d..84475b9 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -332,7 +332,7 @@ class CompressedBuffer(nn.Module):
         elif self.compression == "downsample":
             # Downsampled buffer
             factor = params.get("factor", 2)
-            buffer_size = (self.maxlen // factor) * 8
+            buffer_size = max(1, self.maxlen // factor) * 8
             return {"buffer": buffer_size, "counter": 4, "total": buffer_size + 4}
         elif self.compression == "sketching":
             # Sketch matrix + hash params
-- 
2.43.0


From 142e428162cb6ad0580cce618d1748a77c279327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 42/51] fix: the memory estimate of hierarchical buffers
 ignores sketches

---
 src/wax/flax/modules/compressed_buffer.py | 31 ++++++++---------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index 84475b9..4c99383 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -438,27 +438,16 @@ class HierarchicalBuffer(nn.Module):
         """Get total memory usage across all levels."""
         recent_usage = self.recent_maxlen * 8  # Full precision
 
-        # Calculate medium buffer usage based on compression strategy
-        if self.medium_compression == "ewma":
-            medium_usage = 12  # compressed state + count
-        elif self.medium_compression == "quantile":
-            medium_usage = (
-                min(self.medium_maxlen, 1000) * 8 + 5 * 8 + 4
-            )  # buffer + estimates + counter
-        elif self.medium_compression == "downsample":
-            medium_usage = (self.medium_maxlen // 2) * 8 + 4  # downsampled buffer + counter
-        else:
-            medium_usage = self.medium_maxlen * 8  # fallback
-
-        # Calculate long buffer usage based on compression strategy
-        if self.long_compression == "ewma":
-            long_usage = 12  # compressed state + count
-        elif self.long_compression == "quantile":
-            long_usage = min(self.long_maxlen, 1000) * 8 + 5 * 8 + 4  # buffer + estimates + counter
-        elif self.long_compression == "downsample":
-            long_usage = (self.long_maxlen // 2) * 8 + 4  # downsampled buffer + counter
-        else:
-            long_usage = self.long_maxlen * 8  # fallback
+        # A level uses what a compressed buffer with its settings uses
+        medium_usage, long_usage = (
+            CompressedBuffer(
+                maxlen=maxlen, compression=compression, parent=None
+            ).get_memory_usage()["total"]
+            for maxlen, compression in (
+                (self.medium_maxlen, self.medium_compression),
+                (self.long_maxlen, self.long_compression),
+            )
+        )
 
         total_usage = recent_usage + medium_usage + long_usage
         uncompressed_total = (self.recent_maxlen + self.medium_maxlen + self.long_maxlen) * 8
-- 
2.43.0


From 0e4fef0866da2ed7ab89b0fb3bfb33f995147aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:53 +0000
Subject: [PATCH 43/51] fix: asking for the history of an unknown module adds
 the module to the tracker

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 9914710..5dea8a6 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -148,7 +148,7 @@ class DataFlowTracker:
         Returns:
             List of data points for the module
         """
-        history = list(self.module_data[module_name])
+        history = list(self.module_data.get(module_name, ()))
 
         if data_type:
             history = [dp for dp in history if dp.data_type == data_type]
-- 
2.43.0


From c269afda0a44fcd3067aef2d5baf35a6b2acd6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:53 +0000
Subject: [PATCH 44/51] fix: the dashboard's data route fails on arrays in the
 metadata of a data point

---
 src/wax/flax/visualization/interactive_dashboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/interactive_dashboard.py b/src/wax/flax/visualization/interactive_dashboard.py
index 142f3be..c9028a6 100644
--- a/src/wax/flax/visualization/interactive_dashboard.py
+++ b/src/wax/flax/visualization/interactive_dashboard.py
@@ -202,7 +202,7 @@ class InteractiveDashboard:
                         "data_type": dp.data_type,
                         "value": self._serialize_value(dp.value),
                         "shape": dp.shape,
-                        "metadata": dp.metadata,
+                        "metadata": self._serialize_value(dp.metadata),
                     }
                 )
 
-- 
2.43.0


From a7aa0c0be338316eab36546bf25a526d925a50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 45/51] fix: the animated flow drops ' Data' anywhere in the
 name of a stage

---
 src/wax/flax/visualization/jupyter_viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/jupyter_viz.py b/src/wax/flax/visualization/jupyter_viz.py
index 7616787..5a55b38 100644
--- a/src/wax/flax/visualization/jupyter_viz.py
+++ b/src/wax/flax/visualization/jupyter_viz.py
@@ -579,7 +579,7 @@ class AnimatedPipelineFlow:
             # Update traces
             with self.animation_fig.batch_update():
                 for _i, trace in enumerate(self.animation_fig.data):
-                    module_name = trace.name.replace(" Data", "")
+                    module_name = trace.name.removesuffix(" Data")
                     if module_name in module_data:
                         steps, values = zip(*module_data[module_name], strict=False)
                         trace.x = steps
-- 
2.43.0


From 963a759731cb5549454790b78bf0ec3cba3483de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 46/51] fix: streaming plots ignore the modules and data types
 asked for

---
 .../flax/visualization/data_flow_visualizer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 5dea8a6..517e83d 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -228,6 +228,8 @@ class DataFlowVisualizer:
         if not self.tracker:
             raise ValueError("No data tracker attached. Call attach_tracker() first.")
 
+        self.plot_config = {"module_names": module_names, "data_types": data_types}
+
         if self.backend == "matplotlib":
             return self._create_matplotlib_plot(module_names, data_types, plot_type)
         elif self.backend == "plotly":
@@ -325,7 +327,7 @@ class DataFlowVisualizer:
         if not self.tracker:
             return "No data tracker attached"
 
-        recent_data = self.tracker.get_recent_data(20)
+        recent_data = self._select_recent_data(20)
 
         lines = ["WAX-ML Streaming Data Flow", "=" * 40, ""]
 
@@ -355,6 +357,18 @@ class DataFlowVisualizer:
 
         return "\n".join(lines)
 
+    def _select_recent_data(self, n_points: int) -> list[DataPoint]:
+        """The most recent data points of the modules and data types to plot."""
+        module_names = self.plot_config.get("module_names")
+        data_types = self.plot_config.get("data_types")
+        selected = [
+            dp
+            for dp in self.tracker.data_history
+            if (module_names is None or dp.module_name in module_names)
+            and (data_types is None or dp.data_type in data_types)
+        ]
+        return selected[-n_points:] if n_points > 0 else []
+
     def _format_value_for_display(self, value: Any) -> str:
         """Format a value for text display."""
         if isinstance(value, jnp.ndarray):
@@ -389,7 +403,7 @@ class DataFlowVisualizer:
         plot_info["data"]
 
         # Get recent data
-        recent_data = self.tracker.get_recent_data(self.max_points)
+        recent_data = self._select_recent_data(self.max_points)
 
         if not recent_data:
             return
-- 
2.43.0


From ad53cdc31c63b9736143e8dcd4ce7fc5f9dbc807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 47/51] fix: Haiku Lag(return_state=True) returns the lagged
 value and the state

---
 src/wax/modules/lag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/modules/lag.py b/src/wax/modules/lag.py
index 36c724f..e030349 100644
--- a/src/wax/modules/lag.py
+++ b/src/wax/modules/lag.py
@@ -29,6 +29,9 @@ class Lag(Buffer):
         self.lag = lag
 
     def __call__(self, x):
+        if self.return_state:
+            buffer, state = super().__call__(x)
+            return buffer[0], state
         buffer = super().__call__(x)
         return buffer[0]
 
-- 
2.43.0


From f11d5552943321fd8ff776547bb70198faf4d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 48/51] fix: Haiku PctChange without forward fill lags its
 input instead of raising TypeError

---
 src/wax/modules/pct_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From c80696d3af94bededae300f877b4d38d6e054b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:54 +0000
Subject: [PATCH 49/51] fix: performance report of a session without recorded
 steps

create_performance_report raised KeyError: 'session' when nothing had been
recorded; it now says so, as generate_memory_report does.
---
 src/wax/flax/debug/profiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 12ae732..07781be 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -570,6 +570,9 @@ def create_performance_report(profile_result: ProfileResult) -> str:
     """Create a human-readable performance report."""
     summary = profile_result.get_summary()
 
+    if "error" in summary:
+        return f"Performance Report Error: {summary['error']}"
+
     report = []
     report.append("🔍 WAX-ML Streaming Performance Report")
     report.append("=" * 50)
-- 
2.43.0


From 5a4bd1e14d26f9806f8173d7b85b79016ce0bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:40 +0000
Subject: [PATCH 50/51] fix: computation graph of modules with own parameters
 and submodules

The submodules of a module that also holds parameters itself had no node.
---
 src/wax/flax/visualization/computation_graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 7976d3b..a9afbdc 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -242,7 +242,7 @@ class ComputationGraphRenderer:
                     k in value
                     for k in ["kernel", "weight", "bias", "alpha", "scale", "logcom", "maxlen"]
                 ):
-                    # This looks like a leaf module with parameters
+                    # This looks like a module with its own parameters
                     module_type = self._infer_module_type(key, value)
 
                     node = PipelineNode(
@@ -257,9 +257,10 @@ class ComputationGraphRenderer:
                     if parent_path and parent_path in self.nodes:
                         edge = PipelineEdge(source=parent_path, target=node_path, label="module")
                         self.edges.append(edge)
-                else:
-                    # Recurse into nested structure
-                    self._extract_modules_from_params(value, node_path)
+
+                # Recurse into nested structure: a module with its own parameters
+                # may have submodules too
+                self._extract_modules_from_params(value, node_path)
 
     def _infer_module_type(self, name: str, params: dict) -> str:
         """Infer module type from name and parameters."""
-- 
2.43.0


From 225523de57aae4bdd28c95efaf22de27a01f42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:03 +0000
Subject: [PATCH 51/51] fix: parameter names with slashes survive the partition
 of Flax optimisers

---
 src/wax/flax/modules/online_optimizer.py | 11 +++++------
 src/wax/flax/modules/update_params.py    | 15 +++++++--------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 3c40954..0eb3ead 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -128,16 +128,15 @@ class OnlineOptimizer(nn.Module):
                 self.params_predicate if self.params_predicate is not None else pass_all_predicate
             )
 
-            flat_params = flatten_dict(params, sep="/")
+            flat_params = flatten_dict(params)
 
-            for key, value in flat_params.items():
-                path = key.split("/")
+            for path, value in flat_params.items():
                 if predicate(path[0] if path else "", path[-1] if path else "", value):
-                    trainable[key] = value
+                    trainable[path] = value
                 else:
-                    non_trainable[key] = value
+                    non_trainable[path] = value
 
-            return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
+            return unflatten_dict(trainable), unflatten_dict(non_trainable)
 
         def merge_params(trainable, non_trainable):
             flat_params = flatten_dict(non_trainable)
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index be9062a..497b3a1 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -82,26 +82,25 @@ class UpdateParams(nn.Module):
                 return {}, params
 
         # Flatten parameters for easier processing
-        flat_params = flatten_dict(params, sep="/")
+        flat_params = flatten_dict(params)
 
         trainable = {}
         non_trainable = {}
 
-        for key, value in flat_params.items():
-            # Parse the key to extract module and parameter names
-            path_parts = key.split("/")
+        for path_parts, value in flat_params.items():
+            # Extract module and parameter names from the path
             module_name = path_parts[0] if len(path_parts) > 0 else ""
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
             if predicate(module_name, param_name, value):
-                trainable[key] = value
+                trainable[path_parts] = value
             else:
-                non_trainable[key] = value
+                non_trainable[path_parts] = value
 
         # Unflatten the dictionaries
-        trainable_params = unflatten_dict(trainable, sep="/")
-        non_trainable_params = unflatten_dict(non_trainable, sep="/")
+        trainable_params = unflatten_dict(trainable)
+        non_trainable_params = unflatten_dict(non_trainable)
 
         return trainable_params, non_trainable_params
 
-- 
2.43.0

