From 3e372b8a12c7ebd5907018301abb944cb9b802f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 01/64] fix: beam_search no longer repeats the last prompt
 token when a prompt fills the input

The prompt is indexed at cur_index + 1, which for the last decoding position
lies past the end of the inputs; JAX clamps the index, so the last prompt
token was forced again instead of decoding that position.
---
 t5x/decoding.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index fe58af5..4159205 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1207,6 +1207,14 @@ def beam_search(
   # We start with a dummy token in the beginning so extend the maximum length.
   max_decode_len += 1
 
+  # The prompt is read one position ahead of the decoding loop. Pad it up to
+  # `max_decode_len` so that positions past its end are never taken for prompt
+  # tokens (an out of bounds index would be clamped to the last prompt token).
+  if inputs.shape[1] < max_decode_len:
+    inputs = jnp.pad(
+        inputs, ((0, 0), (0, max_decode_len - inputs.shape[1]))
+    )
+
   right_aligned_input = None
   live_seqs = None
   if initial_index is not None:
-- 
2.43.0


From fe92f9091e01d15ad81b0c7bc12351f1fa7e1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 02/64] fix: beam_search stops extending each element at the
 maximum length when prefilled prompts differ in length

---
 t5x/decoding.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index 4159205..84ffd38 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1502,13 +1502,26 @@ def beam_search(
         )
     )
 
+    # The loop runs until the element with the shortest prompt is done. Elements
+    # with a longer prompt run out of space earlier, their hypotheses must not
+    # be extended past the maximum length.
+    # --> [batch]
+    in_range = state.cur_index + initial_index < max_decode_len - 1
+
+    def keep_if_full(new, old):
+      return jnp.where(
+          in_range.reshape((-1,) + (1,) * (new.ndim - 1)), new, old
+      )
+
     return BeamState(
         cur_index=state.cur_index + 1,
-        live_logprobs=top_alive_log_probs,
-        finished_scores=top_finished_scores,
-        live_seqs=top_alive_seq,
-        finished_seqs=top_finished_seq,
-        finished_flags=top_finished_flags,
+        live_logprobs=keep_if_full(top_alive_log_probs, state.live_logprobs),
+        finished_scores=keep_if_full(
+            top_finished_scores, state.finished_scores
+        ),
+        live_seqs=keep_if_full(top_alive_seq, state.live_seqs),
+        finished_seqs=keep_if_full(top_finished_seq, state.finished_seqs),
+        finished_flags=keep_if_full(top_finished_flags, state.finished_flags),
         cache=top_alive_cache,
         initial_index=initial_index,
     )
-- 
2.43.0


From ff6d0a84d517cc77aa4593d2b9dec6379858b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 03/64] fix: derive logical axes for optax.zero_nans, whose
 state has one flag per parameter

---
 t5x/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/optimizers.py b/t5x/optimizers.py
index 8b1283a..7c0273a 100644
--- a/t5x/optimizers.py
+++ b/t5x/optimizers.py
@@ -261,7 +261,7 @@ class OptaxStatePartitionRules:
       ),
       optax.ScaleByScheduleState: _scale_by_schedule_ctor,
       optax.ZeroNansState: lambda state, params_axes: optax.ZeroNansState(
-          found_nan=None
+          found_nan=jax.tree.map(lambda x: None, state.found_nan)
       ),
       # FactoredState
       # Recursive, Combinator Optax States:
-- 
2.43.0


From 8d45726f2f24b33d0630f1824b1a4f21f18205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 04/64] fix: give every microbatch its own dropout key instead
 of reusing the first one

---
 t5x/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 965bd09..a674306 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -791,7 +791,7 @@ def accumulate_grads_microbatched(
         (_, (metrics, flax_mutables)), grad = grad_fn(
             train_state.params, mbatch, sub_dropout_rng, flax_mutables
         )
-      return metrics, grad, flax_mutables
+      return dropout_rng, metrics, grad, flax_mutables
 
     def per_microbatch_train_step(
         loop_cnt: int,
@@ -808,7 +808,7 @@ def accumulate_grads_microbatched(
         Optional[FlaxMutables],
     ]:
       (dropout_rng, grad_accum, prev_metrics, flax_mutables) = state
-      metrics, grad, flax_mutables = metrics_and_grad(
+      dropout_rng, metrics, grad, flax_mutables = metrics_and_grad(
           loop_cnt, dropout_rng, flax_mutables
       )
 
@@ -826,7 +826,7 @@ def accumulate_grads_microbatched(
     grad_accum_init = jax.tree_util.tree_map(
         lambda x: jnp.zeros(x.shape, accum_dtype), train_state.params
     )
-    initial_metrics_shape, _, _ = jax.eval_shape(
+    _, initial_metrics_shape, _, _ = jax.eval_shape(
         metrics_and_grad,
         loop_cnt=0,
         dropout_rng=dropout_rng,
-- 
2.43.0


From ebb88436b9722c6ec3346990f041b9ab2e72dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 05/64] fix: training no longer re-enters the last explicit
 checkpoint step with zero steps to train

---
 t5x/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/utils.py b/t5x/utils.py
index 15c872d..10ec483 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2330,6 +2330,7 @@ def find_next_checkpoint_step(
     if (
         ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
         and curr_checkpoint_step > first_step
+        and curr_checkpoint_step > host_step
         and curr_checkpoint_step <= epoch_end_step
     ):
       # Found a checkpoint step before inner_num_steps + host_step that
-- 
2.43.0


From 0aa1ed5ae91babad4321f9430b0039a4a4862513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 06/64] fix: save the explicit checkpoint steps when no
 checkpoint period is configured

---
 t5x/train.py | 2 +-
 t5x/utils.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index baa989a..1f107c2 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -713,7 +713,7 @@ def train(
             first_step,
         )
         # Handled separately if this is the overall last step.
-        if host_step + inner_num_steps == total_steps:
+        if checkpoint_period and host_step + inner_num_steps == total_steps:
           is_checkpoint_step = False
 
         train_summary = trainer.train(
diff --git a/t5x/utils.py b/t5x/utils.py
index 10ec483..94be503 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2328,7 +2328,10 @@ def find_next_checkpoint_step(
   ):
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
-        ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
+        (
+            not checkpoint_period
+            or (curr_checkpoint_step - first_step) % checkpoint_period != 0
+        )
         and curr_checkpoint_step > first_step
         and curr_checkpoint_step > host_step
         and curr_checkpoint_step <= epoch_end_step
-- 
2.43.0


From 5e467f3e091deb3ec9483bc53485779525110312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 07/64] fix: an evaluation no longer clears a stop that an
 earlier action requested

---
 t5x/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 1f107c2..173e0cf 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -514,7 +514,7 @@ def train(
         eval_batch_iters[task] = ds
 
     eval_summaries = trainer.eval(eval_batch_iters)
-    trainer.stop_training = run_actions(
+    trainer.stop_training |= run_actions(
         trainer_lib.ActionMode.TRAIN_EVAL,  # pytype: disable=wrong-arg-types  # jax-ndarray
         actions,
         trainer.train_state,
@@ -531,7 +531,7 @@ def train(
     if not concurrent_metrics:
       # Ensure metrics are finished being computed.
       all_metrics_done = all_metrics.result() or {}
-      trainer.stop_training = run_actions(
+      trainer.stop_training |= run_actions(
           trainer_lib.ActionMode.INFER_EVAL,
           actions,
           trainer.train_state,
-- 
2.43.0


From e587fc509dd1f47aa0d9b26160c3bb0c5739f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 08/64] fix: an early stop or preemption at an already saved
 step no longer fails with Orbax

---
 t5x/train.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 173e0cf..93c6bca 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -587,6 +587,13 @@ def train(
     utils.sync_global_devices('complete')
     logging.info('Finished.')
 
+  def _needs_checkpoint() -> bool:
+    """Orbax errors out if the current step already has a checkpoint."""
+    return not use_orbax or (
+        utils.get_local_data(trainer.train_state.step)
+        not in checkpoint_manager.all_steps()
+    )
+
   first_step = host_step
 
   if total_steps < first_step:
@@ -679,7 +686,7 @@ def train(
       logging.info('Training for %d steps.', epoch_end_step - host_step)
       while host_step < epoch_end_step:
         if trainer.stop_training:
-          if checkpoint_period and checkpoint_manager:
+          if checkpoint_period and checkpoint_manager and _needs_checkpoint():
             logging.info('Saving a checkpoint before early stopping...')
             checkpoint_manager.save(
                 trainer.train_state,
@@ -748,10 +755,11 @@ def train(
     except trainer_lib.PreemptionError as e:
       if checkpoint_period and checkpoint_manager:
         logging.info('Saving emergency checkpoint.')
-        checkpoint_manager.save(
-            trainer.train_state,
-            checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-        )
+        if _needs_checkpoint():
+          checkpoint_manager.save(
+              trainer.train_state,
+              checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
+          )
         checkpoint_manager.wait_until_finished()
         logging.info('Saving emergency checkpoint done.')
       raise e
@@ -771,10 +779,11 @@ def train(
       logging.info('Saving checkpoint.')
       checkpoint_tick = time.time()
       # Make sure last train step has completed before starting the clock.
-      checkpoint_manager.save(
-          trainer.train_state,
-          checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-      )
+      if _needs_checkpoint():
+        checkpoint_manager.save(
+            trainer.train_state,
+            checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
+        )
       # `_run_training_eval`` depends upon the result of the checkpoint,
       # thus calling `wait_until_finished()`` here.
       checkpoint_manager.wait_until_finished()
-- 
2.43.0


From 221117a7f47b6278d2f0463c07c16acc1eb33761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 09/64] fix: the checkpoint saved before training no longer
 skips the batch the input warm-up peeked at

---
 t5x/train.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 93c6bca..2db9650 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -380,10 +380,6 @@ def train(
         )
     )
 
-  # Start warming up the input pipeline in the background. This must happen
-  # after input pipeline checkpoints were restored.
-  first_batch_ready = train_iter.peek_async()
-
   # 3. If no checkpoint to restore, init from scratch.
   train_state = train_state or train_state_initializer.from_scratch(init_rng)
   train_state_axes = train_state_initializer.train_state_axes
@@ -569,6 +565,11 @@ def train(
           checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
       )
 
+  # Start warming up the input pipeline in the background. This must happen
+  # after input pipeline checkpoints were restored and saved: the saved position
+  # does not account for an element that was peeked at.
+  first_batch_ready = train_iter.peek_async()
+
   # If we take manual control of the garbage collector, we need to disable it
   # before starting training.
   if gc_period:
-- 
2.43.0


From a30afa6b00bbba28784ea55c801763f4f9bc94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 10/64] fix: training resumes with the checkpoint manager class
 it saves with

---
 t5x/train.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/train.py b/t5x/train.py
index 2db9650..dc41923 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -320,6 +320,9 @@ def train(
           checkpointer_cls=checkpoint_cfg.save.checkpointer_cls
           if checkpoint_cfg.save
           else checkpoints.Checkpointer,
+          checkpoint_manager_cls=checkpoint_cfg.save.checkpoint_manager_cls
+          if checkpoint_cfg.save
+          else checkpoints.OrbaxCheckpointManagerInterface,
           # Restore dataset state if it is being saved.
           restore_dataset=(
               checkpoint_cfg.save and checkpoint_cfg.save.save_dataset
-- 
2.43.0


From a4d984773f3623800f5eac7e3f1158c2c70b1146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 11/64] fix: restore the latest checkpoint when it is the one
 of step 0

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ada1b4e..edd0e62 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1036,7 +1036,7 @@ class Checkpointer(object):
     else:
       if step is None:
         step = self.latest_step()
-        if not step:
+        if step is None:
           raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
       ckpt_path = self._get_checkpoint_dir(step)
 
-- 
2.43.0


From 1c1d3732bb5b3677224386205f60d4aaeee9b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 12/64] fix: saving an array as large as the concurrency limit
 no longer waits forever

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index edd0e62..aa55625 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -431,7 +431,7 @@ class _BytesConditionVariable(object):
 
   async def wait_for_bytes(self, n_bytes):
     async with self._cv:
-      await self._cv.wait_for(lambda: self._num_bytes > n_bytes)
+      await self._cv.wait_for(lambda: self._num_bytes >= n_bytes)
       self._num_bytes -= n_bytes
       assert self._num_bytes >= 0
 
-- 
2.43.0


From 9787b8cf80200368e8fa66b5e5042f842d223926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 13/64] fix: save_dtype=None also leaves the dtype of
 parameters that are not partitioned alone

---
 t5x/checkpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index aa55625..5cb4c28 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -948,7 +948,9 @@ class Checkpointer(object):
     state_dict_for_save = self._get_state_dict_for_save(transformed_state_dict)
 
     def _cast_arr_if_not_partitioned(maybe_arr, param_info):
-      if param_info is None or param_info.ts_spec is None:
+      if self._save_dtype is not None and (
+          param_info is None or param_info.ts_spec is None
+      ):
         return _cast(maybe_arr, self._save_dtype)
       return maybe_arr
 
-- 
2.43.0


From a0f804bf8c1703c99704309e09d47498bc6bbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 14/64] fix: load_t5x_checkpoint casts only the targets to
 restore_dtype, not the optimizer state

---
 t5x/checkpoints.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 5cb4c28..628bb34 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1934,15 +1934,18 @@ def load_t5x_checkpoint(
         maybe_ts_spec, get_fn, dtype=restore_dtype
     )
 
-  state_dict = jax.tree_util.tree_map(
-      functools.partial(
-          _create_lazy_awaitable_array,
-          ckpt_path=path,
-          restore_dtype=restore_dtype,
-      ),
-      param_infos,
-      ckpt_optimizer_state_with_specs,
-  )
+  state_dict = {}
+  for k in ckpt_optimizer_state_with_specs.keys():
+    state_dict[k] = jax.tree_util.tree_map(
+        functools.partial(
+            _create_lazy_awaitable_array,
+            ckpt_path=path,
+            # ensure that only 'target' is cast
+            restore_dtype=restore_dtype if k == 'target' else None,
+        ),
+        param_infos[k],
+        ckpt_optimizer_state_with_specs[k],
+    )
 
   if not lazy_parameters:
     future_state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From de9278f67d274828d0ff20229b8b01cf00105459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 15/64] fix: an interrupted removal of an old checkpoint no
 longer leaves a partial one that is listed

---
 t5x/checkpoint_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/t5x/checkpoint_utils.py b/t5x/checkpoint_utils.py
index 4ed726d..3a5f228 100644
--- a/t5x/checkpoint_utils.py
+++ b/t5x/checkpoint_utils.py
@@ -82,6 +82,14 @@ def remove_checkpoint_dir(ckpt_dir: str) -> None:
   """Removes the checkpoint dir if it is not pinned."""
   if not is_pinned_checkpoint(ckpt_dir):
     logging.info('Deleting checkpoint: %s', ckpt_dir)
+    if not ckpt_dir.startswith('gs://'):
+      # Rename first, so that an interrupted removal does not leave a partially
+      # deleted directory that is still listed as a checkpoint.
+      deleting_dir = ckpt_dir.rstrip('/') + '.tmp-deleting'
+      if gfile.exists(deleting_dir):
+        gfile.rmtree(deleting_dir)
+      gfile.rename(ckpt_dir, deleting_dir)
+      ckpt_dir = deleting_dir
     gfile.rmtree(ckpt_dir)
   else:
     logging.info('Keeping pinned checkpoint: %s', ckpt_dir)
-- 
2.43.0


From 631df4ba47a9b135b03d4d88a2712116e5db6dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 16/64] fix: removing an old dataset checkpoint no longer fails
 on a leftover temporary directory

---
 t5x/checkpoint_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoint_utils.py b/t5x/checkpoint_utils.py
index 3a5f228..0f4cd53 100644
--- a/t5x/checkpoint_utils.py
+++ b/t5x/checkpoint_utils.py
@@ -101,7 +101,10 @@ def remove_dataset_checkpoint(ckpt_dir: str, train_ds_prefix: str) -> None:
     train_ds_pattern = os.path.join(ckpt_dir, train_ds_prefix + '*')
     logging.info('Deleting dataset checkpoint: %s', train_ds_pattern)
     for file in gfile.glob(train_ds_pattern):
-      gfile.remove(file)
+      if gfile.isdir(file):  # Left behind by a failed write.
+        gfile.rmtree(file)
+      else:
+        gfile.remove(file)
   else:
     logging.info('Keeping pinned checkpoint: %s', ckpt_dir)
 
-- 
2.43.0


From 9e88a3528ca1a0f3faeaace636adcb43502aac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 17/64] fix: NaN metrics no longer make SaveBestCheckpointer
 remove better checkpoints

---
 t5x/checkpoints.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 628bb34..81d8b8a 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1599,10 +1599,14 @@ class SaveBestCheckpointer(Checkpointer):
     if to_remove <= 0:
       return
 
-    # For any remaining steps without metrics, we assign a low/high value which
-    # will make them candidate for removal. If no metrics are found this sorting
-    # should preserve current order (oldest first).
+    # For any remaining steps without metrics (or with NaN, which does not sort),
+    # we assign a low/high value which will make them candidate for removal. If
+    # no metrics are found this sorting should preserve current order (oldest
+    # first).
     not_found_value = float('-inf' if self._metric_mode == 'max' else 'inf')
+    metrics_by_step = {
+        s: m for s, m in metrics_by_step.items() if not np.isnan(m)
+    }
     existing_steps = sorted(
         existing_steps,
         key=lambda step: metrics_by_step.get(step, not_found_value),
-- 
2.43.0


From 016eda08d7678ecf129133ce87b65593c3d748c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 18/64] fix: apply_assignment_map no longer overwrites a mapped
 parameter with the checkpoint's own value of that name

---
 t5x/state_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/state_utils.py b/t5x/state_utils.py
index aa1af46..b0c2ea5 100644
--- a/t5x/state_utils.py
+++ b/t5x/state_utils.py
@@ -213,7 +213,7 @@ def apply_assignment_map(
   # Now re-add the unmapped keys. This is a 2-step process so that the `pop()`
   # call above doesn't mis-fire if the assignment map "rotates" a chain of keys.
   for key, v in unmapped_old_keys.items():
-    if key not in explicitly_skipped_keys:
+    if key not in explicitly_skipped_keys and key not in result:
       result[key] = v
 
   # If any new keys weren't mapped, but are in the old checkpoint, copy those.
-- 
2.43.0


From f5a3f5fcd852b26b70fc5025083b6916ac2a5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 19/64] fix: Orbax restores read renamed parameters from the
 source that the transformation chose

---
 t5x/checkpoints.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 81d8b8a..aefb396 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2121,6 +2121,15 @@ def _construct_orbax_restoration_transforms(
   structure, _ = state_handler._get_internal_metadata(  # pylint: disable=protected-access
       state_subdir
   )
+  # Transformations may move a leaf to another key, so remember which checkpoint
+  # parameter each leaf stands for.
+  source_names = {
+      id(leaf): name
+      for leaf, name in zip(
+          jax.tree.leaves(structure),
+          jax.tree.leaves(ocp.tree.get_param_names(structure)),
+      )
+  }
   # Note: Ideally we would use Orbax's `transform_fn` to do this logic, but
   # the problem is we need to modify `restore_args`, and there isn't a great
   # way to do that within Orbax.
@@ -2169,10 +2178,13 @@ def _construct_orbax_restoration_transforms(
     def _modify_orbax_param_info(info, value):
       if ocp.utils.leaf_is_placeholder(value):
         name = ocp.utils.name_from_leaf_placeholder(value)
-        return dataclasses.replace(
-            info, name=name, path=directory_ / name, parent_dir=directory_
-        )
-      return info
+      elif isinstance(value, ocp.metadata.tree.ValueMetadataEntry):
+        name = source_names.get(id(value), info.name)
+      else:
+        return info
+      return dataclasses.replace(
+          info, name=name, path=directory_ / name, parent_dir=directory_
+      )
 
     item_ = jax.tree.map(_make_orbax_internal_metadata, item_, restore_args)
     param_infos_ = checkpoint_utils.get_restore_parameters(directory_, item_)
-- 
2.43.0


From 015accc70905383ac4e26b927a17fc10ec038856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 20/64] fix: Orbax saves apply save_dtype to the targets

The parameter names of the Orbax interface are joined with '/', so the test
for 'target' never matched and save_dtype was ignored.
---
 t5x/checkpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index aefb396..ec25afe 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2063,9 +2063,9 @@ def _construct_save_args(
     param_info: _OrbaxParamInfo, dtype: jnp.dtype
 ) -> ocp.SaveArgs:
   """Create SaveArgs for Orbax saving."""
-  if param_info.name.split('.')[0] != 'target':
+  if param_info.name.split('/')[0] != 'target':
     dtype = None
-  return ocp.SaveArgs(dtype=dtype)
+  return ocp.SaveArgs(dtype=jnp.dtype(dtype) if dtype is not None else None)
 
 
 def _construct_restore_args(
-- 
2.43.0


From de276d080acdb6a83961fdd25bdbbf2c22f5c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 21/64] fix: Orbax restores cast only the targets to
 restore_dtype

Unsharded values such as the step counter were cast as well: with the default
restore dtype of float32 the restored step is a float and is wrong above 2**24.
---
 t5x/checkpoints.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ec25afe..4999358 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2530,7 +2530,11 @@ class OrbaxCheckpointManagerInterface:
             arr,
             self._partitioner.mesh,
             axes=info.mesh_axes,
-            restore_dtype=self._restore_dtype,
+            restore_dtype=(
+                self._restore_dtype
+                if info.name.split('/')[0] == 'target'
+                else None
+            ),
         )
 
     state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From 98f890514e7be1b442607d26609f9d80125e3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 22/64] fix: Orbax interface restores the requested step of a
 legacy checkpoint

Only the path argument was handed to the legacy checkpointer, so
restore(step=n) silently returned the latest checkpoint.
---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 4999358..507c232 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2469,7 +2469,7 @@ class OrbaxCheckpointManagerInterface:
             restore_dtype=self._restore_dtype,
         )
         return legacy_checkpointer.restore(
-            path=path,
+            path=ckpt_path,
             fallback_state=fallback_state,
             state_transformation_fns=state_transformation_fns,
         )
-- 
2.43.0


From ecde95a6c76acc8364c45fa90e3ae8b3f6229f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 23/64] fix: Orbax interface restores the latest checkpoint
 when no step is given

It looked for a directory named checkpoint_None.
---
 t5x/checkpoints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 507c232..4264ddd 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2439,6 +2439,10 @@ class OrbaxCheckpointManagerInterface:
     directory = self.directory
     if path is not None:
       directory, step = get_step_from_checkpoint_dir(os.fspath(path))
+    elif step is None:
+      step = self.latest_step()
+      if step is None:
+        raise ValueError(f'No checkpoints found in {directory}.')
 
     # Check for legacy T5X checkpoint: If so, use legacy T5X
     # checkpointer to restore the state. The following exclusive features of T5X
-- 
2.43.0


From 3fca4010ab0faccaed08b19ff4dd0838121d0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 24/64] fix: SaveBestCheckpointer settings reach the Orbax
 checkpoint manager

The class test was made on the type of the class, which is never a subclass,
so the manager kept the latest checkpoints instead of the best.
---
 t5x/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 94be503..c3a78bc 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1319,10 +1319,10 @@ def create_orbax_checkpoint_manager(
       # differently since it's a functools.partial.
       extra_kwargs = _get_default_args(cfg.checkpointer_cls)
     else:
-      if issubclass(
-          type(cfg.checkpointer_cls), checkpoints.SaveBestCheckpointer
+      if isinstance(cfg.checkpointer_cls, type) and issubclass(
+          cfg.checkpointer_cls, checkpoints.SaveBestCheckpointer
       ):
-        save_best_checkpointer = checkpoints.SaveBestCheckpointer(
+        save_best_checkpointer = cfg.checkpointer_cls(
             train_state=train_state,
             checkpoints_dir=model_dir,
             partitioner=partitioner,
-- 
2.43.0


From 2287c619632068ec4e0da624385768e4e79b4672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 25/64] fix: Orbax restores states with None leaves

MultiOptimizer keeps None for the parameters that it does not handle. Orbax
writes nothing for them, but the restore insisted on reading an array.
---
 t5x/checkpoints.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 4264ddd..64b659f 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2161,6 +2161,8 @@ def _construct_orbax_restoration_transforms(
 
     def _make_orbax_internal_metadata(value: Any, args: ocp.RestoreArgs):
       if isinstance(value, ocp.metadata.tree.ValueMetadataEntry):
+        if value.skip_deserialize:  # Nothing was written for a None.
+          return value
         if value.value_type == 'scalar':
           return ocp.metadata.tree.ValueMetadataEntry(value_type='scalar')
         if isinstance(args, ocp.ArrayRestoreArgs):
@@ -2517,7 +2519,13 @@ class OrbaxCheckpointManagerInterface:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
-    state_dict = restored[_STATE_KEY]
+    # Values that were saved as None come back as their metadata.
+    state_dict = jax.tree.map(
+        lambda x: None
+        if isinstance(x, ocp.metadata.tree.ValueMetadataEntry)
+        else x,
+        restored[_STATE_KEY],
+    )
     if self._should_write_dataset_ckpt:
       self._dataset_iterator = restored[_DATASET_KEY]
 
-- 
2.43.0


From 8d101570fbe4748d44a27a9ef9c3d5dc53952b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 26/64] fix: NaN metrics no longer make the Orbax manager
 remove better checkpoints

---
 t5x/checkpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 64b659f..55ab00c 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2302,7 +2302,10 @@ class OrbaxCheckpointManagerInterface:
     }
 
     def best_fn(metrics):
-      return metrics[metric_name_to_monitor]
+      value = metrics[metric_name_to_monitor]
+      if np.isnan(value):  # NaN does not sort, so treat it as the worst.
+        return float('-inf' if metric_mode == 'max' else 'inf')
+      return value
 
     options = ocp.CheckpointManagerOptions(
         max_to_keep=keep,
-- 
2.43.0


From 7699f5615fb15a10ef8778e12fcadc749731ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 27/64] fix: checkpoints saved with another
 get_checkpoint_prefix are found again

Saving used the configured prefix, but listing, retention and the choice of
the checkpoint to resume from looked for 'checkpoint_' only.
---
 t5x/checkpoints_utils.py | 10 ++++++----
 t5x/utils.py             |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 89163d9..f2da3c5 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -39,20 +39,22 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
-  glob_pattern = os.path.join(checkpoints_dir, 'checkpoint_*')
+  prefix = get_checkpoint_prefix()
+  glob_pattern = os.path.join(checkpoints_dir, f'{prefix}_*')
   checkpoint_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
   return sorted(int(match.group(1)) for match in matches if match)
 
 
 def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
+  prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, 'checkpoint_*', f'{_TRAIN_DS_PREFIX}-*'
+      checkpoints_dir, f'{prefix}_*', f'{_TRAIN_DS_PREFIX}-*'
   )
   train_ds_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)/.*$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
   matches = [re_pattern.match(path) for path in train_ds_paths]
   return sorted(set(int(match.group(1)) for match in matches if match))
 
diff --git a/t5x/utils.py b/t5x/utils.py
index c3a78bc..be3957a 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -962,7 +962,7 @@ def get_first_valid_restore_config_and_paths(
           ckpt_paths = tf_ckpt_state.all_model_checkpoint_paths
         else:
           ckpt_paths = [
-              os.path.join(ckpt_dir, f'checkpoint_{step}')
+              checkpoints.get_checkpoint_dir(ckpt_dir, step)
               for step in checkpoints.all_steps(ckpt_dir)
           ]
         if not ckpt_paths:
-- 
2.43.0


From 0bd47aa51be04b189c041d9500852e7bc97d3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 28/64] fix: checkpoint directories whose name contains glob
 characters

Listing and removal put the directory name into a glob pattern, so a model_dir
such as 'run[1]' showed (and removed) the checkpoints of 'run1'.
---
 t5x/checkpoint_utils.py  | 5 ++++-
 t5x/checkpoints_utils.py | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/t5x/checkpoint_utils.py b/t5x/checkpoint_utils.py
index 0f4cd53..5bbb810 100644
--- a/t5x/checkpoint_utils.py
+++ b/t5x/checkpoint_utils.py
@@ -19,6 +19,7 @@ removal process.
 """
 
 import enum
+import glob
 import os
 from typing import Any, BinaryIO, Optional, Union
 
@@ -98,7 +99,9 @@ def remove_checkpoint_dir(ckpt_dir: str) -> None:
 def remove_dataset_checkpoint(ckpt_dir: str, train_ds_prefix: str) -> None:
   """Removes dataset checkpoints if the checkpoint is not pinned."""
   if not is_pinned_checkpoint(ckpt_dir):
-    train_ds_pattern = os.path.join(ckpt_dir, train_ds_prefix + '*')
+    train_ds_pattern = os.path.join(
+        glob.escape(os.fspath(ckpt_dir)), train_ds_prefix + '*'
+    )
     logging.info('Deleting dataset checkpoint: %s', train_ds_pattern)
     for file in gfile.glob(train_ds_pattern):
       if gfile.isdir(file):  # Left behind by a failed write.
diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index f2da3c5..e37cd30 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -20,6 +20,7 @@ doesn't need the ability to actually read the checkpoints and can thus
 significantly reduce its binary size by not linking all the Jax libraries.
 """
 
+import glob
 import os
 import re
 from typing import Optional, Sequence, Tuple
@@ -40,7 +41,9 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
   prefix = get_checkpoint_prefix()
-  glob_pattern = os.path.join(checkpoints_dir, f'{prefix}_*')
+  glob_pattern = os.path.join(
+      glob.escape(os.fspath(checkpoints_dir)), f'{prefix}_*'
+  )
   checkpoint_paths = gfile.glob(glob_pattern)
   re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
@@ -51,7 +54,9 @@ def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
   prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, f'{prefix}_*', f'{_TRAIN_DS_PREFIX}-*'
+      glob.escape(os.fspath(checkpoints_dir)),
+      f'{prefix}_*',
+      f'{_TRAIN_DS_PREFIX}-*',
   )
   train_ds_paths = gfile.glob(glob_pattern)
   re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
-- 
2.43.0


From e657d27268b1c028a797db9b1a10c33fdf64ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 29/64] fix: only dataset checkpoints directly in a checkpoint
 of the directory are listed

A temporary directory below a directory called like a checkpoint was taken for
a dataset checkpoint of the outer step.
---
 t5x/checkpoints_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index e37cd30..14c092c 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -59,7 +59,7 @@ def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
       f'{_TRAIN_DS_PREFIX}-*',
   )
   train_ds_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/[^/]*$')
   matches = [re_pattern.match(path) for path in train_ds_paths]
   return sorted(set(int(match.group(1)) for match in matches if match))
 
-- 
2.43.0


From 4effa787f2b99b4d3aea51e89abe1d11b05e8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 30/64] fix: glob characters in the configured checkpoint
 prefix

---
 t5x/checkpoints_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 14c092c..2ce0f0d 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -41,9 +41,7 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
   prefix = get_checkpoint_prefix()
-  glob_pattern = os.path.join(
-      glob.escape(os.fspath(checkpoints_dir)), f'{prefix}_*'
-  )
+  glob_pattern = glob.escape(os.path.join(checkpoints_dir, f'{prefix}_')) + '*'
   checkpoint_paths = gfile.glob(glob_pattern)
   re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
@@ -54,8 +52,7 @@ def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
   prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      glob.escape(os.fspath(checkpoints_dir)),
-      f'{prefix}_*',
+      glob.escape(os.path.join(checkpoints_dir, f'{prefix}_')) + '*',
       f'{_TRAIN_DS_PREFIX}-*',
   )
   train_ds_paths = gfile.glob(glob_pattern)
-- 
2.43.0


From ae6329004186405e1bc10a5578fe75b9c7c2201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 31/64] fix: inference results of several data shards are
 returned in input order

Indexing by the gathered indices sorts only when their permutation is its
own inverse.
---
 t5x/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index be3957a..f133782 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1763,8 +1763,9 @@ def get_infer_fn(
     # Note: remove padding first, as -1 indices would mess up this operation.
     # Note: all_inferences may be a PyTree, not just an array, e.g. if
     # `infer_step` is `model.predict_batch_with_aux`.
-    all_inferences = jax.tree.map(lambda x: x[all_indices], all_inferences)
-    all_indices = all_indices[all_indices]
+    order = np.argsort(all_indices)
+    all_inferences = jax.tree.map(lambda x: x[order], all_inferences)
+    all_indices = all_indices[order]
 
     # aux_values is supposed to be a dictionary that maps strings to a set of
     # auxiliary values.
-- 
2.43.0


From a502edbc6f632b7c35f76c870f306c7e439e8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 32/64] fix: inference marks its output complete before
 deleting the chunks

A job that died while deleting its temporary files merged the remaining
chunks again, or could not be restarted.
---
 t5x/infer.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 4771216..7d285c8 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -549,6 +549,18 @@ def infer(
   )
 
   def infer_task(task: seqio.Task):
+    output_fname = (
+        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
+    )
+    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
+      logging.info(
+          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
+          output_fname,
+          shard_id,
+          num_shards,
+          task.name,
+      )
+      return
     tmp_dir = os.path.join(
         output_dir, f'tmp-{task.name}-{shard_id:05}-of-{num_shards:05}'
     )
@@ -586,18 +598,6 @@ def infer(
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
-    output_fname = (
-        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
-    )
-    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
-      logging.info(
-          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
-          output_fname,
-          shard_id,
-          num_shards,
-          task.name,
-      )
-      return
     logging.info(
         "Starting inference loop for shard %d of %d of task '%s'.",
         shard_id,
@@ -720,14 +720,16 @@ def infer(
     if jax.process_index() == 0 and merge_chunked_results:
       step = None if train_state is None else int(train_state.step)
       merge_fn(output_dir, output_fname, tmp_dir, step)
-      logging.info('Deleting temporary files.')
-      gfile.rmtree(tmp_dir)
 
     if jax.process_index() == 0:
       with gfile.GFile(
           os.path.join(output_dir, f'{output_fname}.COMPLETED'), 'w'
       ) as f:
         f.write('')
+      # Only now: a restart must not merge what is left of the chunks.
+      if merge_chunked_results:
+        logging.info('Deleting temporary files.')
+        gfile.rmtree(tmp_dir)
 
     # Wait for host 0 to finish writing before exiting.
     utils.sync_global_devices(f'{task.name}:complete')
-- 
2.43.0


From fb1ba94eaf5b5b87b40bf7433f8e1169e5a48fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 33/64] fix: inference restarts after dying while it moved the
 iterator checkpoint

The checkpoint consists of several files; a job that died after moving
some of them could never be restarted.
---
 t5x/infer.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 7d285c8..8d3c4b8 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -594,7 +594,18 @@ def infer(
       ckpt_path = os.path.join(tmp_dir, 'input.ckpt')
 
       input_ckpt = tf.train.Checkpoint(ds=infer_ds_iter)
-      if gfile.glob(ckpt_path + '*'):
+      if jax.process_index() == 0:
+        # Finish moving a checkpoint of which only the index is left.
+        names = gfile.listdir(tmp_dir)
+        for fname in names:
+          if re.fullmatch(r'\d+\.ckpt\.index', fname) and not any(
+              n.startswith(fname[: -len('index')] + 'data') for n in names
+          ):
+            gfile.rename(
+                os.path.join(tmp_dir, fname), f'{ckpt_path}.index', overwrite=True
+            )
+      utils.sync_global_devices(f'{task.name}:input_ckpt')
+      if gfile.glob(f'{ckpt_path}.index'):
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
@@ -631,11 +642,15 @@ def infer(
       )
 
       if chunk_ckpt_path:
-        # Canonicalize checkpoint.
-        for fname in gfile.glob(chunk_ckpt_path + '*'):
-          gfile.rename(
-              fname, fname.replace(chunk_ckpt_path, ckpt_path), overwrite=True
-          )
+        # Canonicalize checkpoint, its index last.
+        prefix = f'{chunk}.ckpt.'
+        for fname in sorted(gfile.listdir(tmp_dir)):
+          if fname.startswith(prefix):
+            gfile.rename(
+                os.path.join(tmp_dir, fname),
+                f'{ckpt_path}.{fname[len(prefix):]}',
+                overwrite=True,
+            )
 
     # Main Loop over "chunks".
     for chunk, chunk_batch in infer_ds_iter:
-- 
2.43.0


From 62eab6cf4713ddb6e89f2cd7ab70728f1073cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 34/64] fix: inference merges all chunks of long jobs and of
 directories with glob characters

Chunks from the 100000th on were silently left out of the merged file, and
none was found below a directory whose name contains glob characters.
---
 t5x/infer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 8d3c4b8..1e799ed 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -179,9 +179,12 @@ def merge_chunks_to_file(
   """Merge the predictions from different chunks into a unified file."""
   logging.info('Merging chunk results.')
   # Merge chunks into single file.
-  chunk_paths = sorted(
-      gfile.glob(os.path.join(tmp_dir, f'{output_fname}-chunk?????'))
-  )
+  chunks = {}
+  for fname in gfile.listdir(tmp_dir):
+    match = re.fullmatch(re.escape(f'{output_fname}-chunk') + r'(\d{5,})', fname)
+    if match:
+      chunks[int(match.group(1))] = os.path.join(tmp_dir, fname)
+  chunk_paths = [chunks[i] for i in sorted(chunks)]
 
   if not chunk_paths:
     raise FileNotFoundError(
@@ -189,9 +192,8 @@ def merge_chunks_to_file(
         'input did not contain any examples'
     )
 
-  assert int(chunk_paths[-1][-5:]) + 1 == len(chunk_paths), (
-      f'Expecting {int(chunk_paths[-1][-5:]) + 1} chunk paths, found '
-      f'{len(chunk_paths)}'
+  assert max(chunks) + 1 == len(chunk_paths), (
+      f'Expecting {max(chunks) + 1} chunk paths, found {len(chunk_paths)}'
   )
   output_path = os.path.join(output_dir, output_fname)
   del step
-- 
2.43.0


From ca1790d6af00a5eb9a1dd3bbe4bc3d4eb7eba4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 35/64] fix: the record of evaluated checkpoints is replaced
 atomically and may name paths with spaces

---
 t5x/eval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index aa9dd45..72abea9 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -196,7 +196,7 @@ def _load_evaluated_ckpt_paths(eval_ckpt_path: str) -> Set[str]:
   if not gfile.exists(eval_ckpt_path):
     return set()
   with gfile.GFile(eval_ckpt_path, 'r') as f:
-    return set(f.read().split())
+    return set(f.read().splitlines())
 
 
 def evaluate(
@@ -388,11 +388,13 @@ def evaluate(
     # Wait until computations are done before continuing.
     utils.sync_global_devices(f'step_{host_step}:complete')
     if jax.process_index() == 0:
-      # Read/write/replace rather than append to avoid filesystem issue.
+      # Read/write/replace rather than append to avoid filesystem issue. The new
+      # contents are moved into place, so that they are never cut short.
       evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
       evaluated_ckpt_paths.add(ckpt_path)
-      with gfile.GFile(eval_ckpt_path, 'w') as f:
+      with gfile.GFile(eval_ckpt_path + '.tmp', 'w') as f:
         f.write('\n'.join(_sorted_ckpt_paths(evaluated_ckpt_paths)))
+      gfile.rename(eval_ckpt_path + '.tmp', eval_ckpt_path, overwrite=True)
 
   logging.info('Finished.')
 
-- 
2.43.0


From bedd06002b1e3f4e44be92045bcf5c29c266d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 36/64] fix: evaluation of all checkpoints covers every
 directory, on the first run and after restarts

---
 t5x/eval.py  | 14 ++++++--------
 t5x/utils.py |  2 ++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index 72abea9..1a9f4e3 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -20,6 +20,7 @@ r"""Runs training- and inference-evaluation on a T5X-compatible model.
 
 # pyformat: enable
 # pylint:enable=line-too-long
+import dataclasses
 import functools
 import os
 import re
@@ -30,7 +31,6 @@ from absl import logging
 from clu import metric_writers
 import jax
 import seqio
-from t5x import checkpoints
 from t5x import gin_utils
 from t5x import models
 from t5x import partitioning
@@ -326,9 +326,7 @@ def evaluate(
   eval_ckpt_path = os.path.join(
       output_dir, f'eval.{dataset_cfg.mixture_or_task_name}.ckpt'
   )
-  if restore_checkpoint_cfg.mode == 'all' and gfile.exists(eval_ckpt_path):
-    logging.info('Found evaluation checkpoint: %s', eval_ckpt_path)
-
+  if restore_checkpoint_cfg.mode == 'all':
     ckpt_dirs = (
         [restore_checkpoint_cfg.path]
         if isinstance(restore_checkpoint_cfg.path, str)
@@ -342,8 +340,9 @@ def evaluate(
             "using restore mode 'all'."
         )
       ckpt_paths.update(
-          checkpoints.get_checkpoint_dir(ckpt_dir, step)
-          for step in checkpoints.all_steps(ckpt_dir)
+          utils.get_first_valid_restore_config_and_paths(
+              [dataclasses.replace(restore_checkpoint_cfg, path=ckpt_dir)]
+          )[1]
       )
 
     evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
@@ -353,8 +352,7 @@ def evaluate(
         '\n '.join(_sorted_ckpt_paths(ckpt_paths & evaluated_ckpt_paths)),
     )
     ckpt_paths = _sorted_ckpt_paths(ckpt_paths - evaluated_ckpt_paths)
-    restore_cfg = restore_checkpoint_cfg
-    restore_cfg.mode = 'specific'
+    restore_cfg = dataclasses.replace(restore_checkpoint_cfg, mode='specific')
 
   else:
     restore_cfg, ckpt_paths = utils.get_first_valid_restore_config_and_paths(
diff --git a/t5x/utils.py b/t5x/utils.py
index f133782..87fea3d 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1225,6 +1225,8 @@ def create_checkpoint_manager_and_restore(
 
   restore_path_list = [restore_path] if restore_path else []
   model_dir = model_dir or restore_checkpoint_cfg.path
+  if restore_path and not isinstance(model_dir, str):
+    model_dir = restore_path  # One of several paths.
   if use_orbax:
     checkpoint_manager = create_orbax_checkpoint_manager(
         save_cfg=save_checkpoint_cfg,
-- 
2.43.0


From 56d6c1c691e6d42dc5c888835d45be0d65289032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 37/64] fix: training metrics reach the disk before a
 checkpoint is recorded as evaluated

---
 t5x/eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/eval.py b/t5x/eval.py
index 1a9f4e3..cca38d2 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -318,6 +318,9 @@ def evaluate(
           )
           for task, ds in train_eval_datasets.items()
       })
+      # The checkpoint is not evaluated again: its metrics must reach the disk.
+      for metrics_manager in train_evaluator.eval_metrics_managers.values():
+        metrics_manager.flush()
 
   # Disable strictness since we are dropping the optimizer state.
   restore_checkpoint_cfg.strict = False
-- 
2.43.0


From b9cef380836b417d75fd897eea6af5732d8e0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 38/64] fix: 2D parameter sharding rules for MoE warn instead
 of raising a TypeError

---
 t5x/contrib/moe/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index c4cd61d..2dece00 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -394,7 +394,7 @@ def standard_logical_axis_rules(
   _ = base_partitioning.global_mesh_defined()
 
   if parameter_partitioning_dims == 2:
-    raise logging.warning(
+    logging.warning(
         '2D parameter sharding (`parameter_partitioning_dims=2`) is supported '
         'but untested for MoE.'
     )
-- 
2.43.0


From d37e65c262504399cfd10281f94f53e5460b75be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 39/64] fix: MoE metrics of scanned stacks of different depths
 are averaged over their layers

---
 t5x/contrib/moe/models.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/t5x/contrib/moe/models.py b/t5x/contrib/moe/models.py
index 005b54b..e591604 100644
--- a/t5x/contrib/moe/models.py
+++ b/t5x/contrib/moe/models.py
@@ -331,20 +331,24 @@ def _extract_diversity_metrics(
 
   avg_metrics = {}
   for metric in MOE_METRICS:
-    summed_metric = 0.0
-    count = 0
-    for path, value in state_dict.items():
-      if path[-1] == metric:
-        summed_metric += jnp.asarray(value, dtype=jnp.float32)
-        count += 1
-
-    if count == 0:
+    layer_metrics = [
+        jnp.asarray(value, dtype=jnp.float32)
+        for path, value in state_dict.items()
+        if path[-1] == metric
+    ]
+
+    if not layer_metrics:
       raise ValueError(
           f'Unable to find expert metric: {metric}. Please check that MoE '
           'metrics and losses are correctly sown.'
       )
 
-    avg_metrics[metric] = summed_metric / count
+    if len(set(value.shape for value in layer_metrics)) > 1:
+      # Scanned stacks of different depths (e.g. encoder and decoder) sow arrays
+      # of different shapes, so we average directly over all of their layers.
+      layer_metrics = [jnp.concatenate([jnp.ravel(v) for v in layer_metrics])]
+
+    avg_metrics[metric] = sum(layer_metrics) / len(layer_metrics)
 
   return avg_metrics
 
-- 
2.43.0


From 2ccb299eec555f0390bd8a9ddc341ed517d32267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 40/64] fix: MoE partitioner leaves Adafactor placeholders of
 unfactored expert kernels replicated

---
 t5x/contrib/moe/partitioning.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index 2dece00..cb099e1 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -19,6 +19,7 @@ from typing import Any, Callable, Optional, Sequence, Tuple, Union
 from absl import logging
 import cached_property
 from flax import core as flax_core
+from flax import traverse_util
 import jax
 from jax.experimental.pjit import pjit
 from jax.sharding import Mesh
@@ -573,8 +574,16 @@ def _infer_state_filter_fn(
 
   if opt_def.hyper_params.factored:
     # Factored kernel terms (`v_col` and `v_row`) need to be identified for
-    # expert sharding.
-    return training_utils.match_fn(r'.*expert.*/kernel/v_.*')
+    # expert sharding. Adafactor only holds a placeholder of shape (1,), which
+    # has no expert axis, for the terms of kernels which it does not factor.
+    expert_match_fn = training_utils.match_fn(r'.*expert.*/kernel/v_.*')
+    placeholders = set()
+    for path, value in traverse_util.flatten_dict(
+        flax_core.unfreeze(optimizer.state_dict())['state']['param_states']
+    ).items():
+      if getattr(value, 'shape', None) == (1,):
+        placeholders.add('/'.join(path))
+    return lambda name: expert_match_fn(name) and name not in placeholders
   else:
     # Non-factored kernel terms (`v`) inherit the correct specs, so no state
     # updates will be required.
-- 
2.43.0


From e47746423b197452c5fd7af8e1e3a3a2b98fd5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 41/64] fix: sparse upcycling broadcasts whole arrays when a
 host holds only a part of them

---
 t5x/contrib/moe/checkpoints.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/t5x/contrib/moe/checkpoints.py b/t5x/contrib/moe/checkpoints.py
index 4233b85..e316ec3 100644
--- a/t5x/contrib/moe/checkpoints.py
+++ b/t5x/contrib/moe/checkpoints.py
@@ -294,7 +294,7 @@ async def _read_upcycle_ts(
     if mesh is not None and axes is not None:
 
       def upcycle(arr):
-        """Reads slice from numpy array and broadcasts to experts.
+        """Broadcasts array to experts.
 
         Args:
           arr: Checkpoint array to be sparsely upcycled.
@@ -302,12 +302,8 @@ async def _read_upcycle_ts(
         Returns:
           Array broadcast to number of expert multiples.
         """
-        assert param_info.local_chunk_info is not None
-        sl = param_info.local_chunk_info.slice
-        # Since sl is the slice generated for the new model, we need to ignore
-        # the first (expert) dimension to deal with the checkpoint states.
-        arr_slice = arr[sl[1:]]
-        return np.repeat(arr_slice[None], num_experts, axis=0)
+        # arr is the global array (and not a slice of it for this host).
+        return np.repeat(arr[None], num_experts, axis=0)
 
       with mesh:
         upcycled_axes = axes
-- 
2.43.0


From d6522ac0e49066c58500e48547d0cc593b74cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 42/64] fix: sparse upcycling broadcasts expert states which
 were saved without TensorStore

---
 t5x/contrib/moe/checkpoints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/t5x/contrib/moe/checkpoints.py b/t5x/contrib/moe/checkpoints.py
index e316ec3..e09e34c 100644
--- a/t5x/contrib/moe/checkpoints.py
+++ b/t5x/contrib/moe/checkpoints.py
@@ -212,6 +212,13 @@ async def _read_upcycle_ts(
   # If saved as a numpy array, but a partitioned read is requested, return a
   # slice of the array for that host. Otherwise, return the whole thing.
   if isinstance(maybe_ts_spec, np.ndarray) and param_info:
+    # Expert parameters or states may have been saved without a TensorStore.
+    if (
+        (not m_or_v)
+        and is_expert_param
+        and maybe_ts_spec.shape == tuple(param_info.shape[1:])
+    ):
+      maybe_ts_spec = np.repeat(maybe_ts_spec[None], num_experts, axis=0)
     if mesh is not None and axes is not None:
       # Using GDA, return global array without selecting local chunk.
       return maybe_ts_spec
@@ -312,5 +319,7 @@ async def _read_upcycle_ts(
             in_shardings=checkpoint_axes,
             out_shardings=upcycled_axes,
         )(arr)
+    else:
+      arr = np.repeat(arr[None], num_experts, axis=0)
 
   return arr
-- 
2.43.0


From 59b9e7a1b82606227fb974d102079b725c1debbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 43/64] fix: exported decoder-only models accept texts of
 different lengths in a batch

---
 t5x/export_lib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 5acc0ed..07fa230 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -761,11 +761,14 @@ def create_decoder_preprocessor(
         t = tf.concat([t, [vocab.eos_id]], axis=-1)
       return t
 
+    # The texts of a batch may have different numbers of tokens.
     decoder_tokens = tf.map_fn(
         tokenize,
         input_texts,
-        fn_output_signature=(tf.int32),
-    )
+        fn_output_signature=tf.RaggedTensorSpec(
+            shape=[None], dtype=tf.int32, ragged_rank=0
+        ),
+    ).to_tensor()
 
     if input_feature == 'inputs':
       # 'inputs_width' is the length of 'inputs' (excluding padding 0).
-- 
2.43.0


From 3de2220c507de7595754d48197fd1f4de9f4d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 44/64] fix: exported decoder-only models accept targets of any
 batch size

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 07fa230..755f2de 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -779,7 +779,7 @@ def create_decoder_preprocessor(
       inputs_width = tf.expand_dims(inputs_length, -1)
       inputs_width_add_pos = inputs_width + 1
     else:
-      inputs_width = tf.zeros(tf.shape(decoder_tokens)[0], dtype=tf.int32)
+      inputs_width = tf.zeros([tf.shape(decoder_tokens)[0], 1], dtype=tf.int32)
       inputs_width_add_pos = inputs_width
 
     def featurize(text, length):
-- 
2.43.0


From e6cc29c8848b7f5bdf59261e093df264f1e3e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 45/64] fix: warmup examples may use all tokens of the random
 string

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 755f2de..1bf0a71 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -1248,7 +1248,7 @@ def generate_examples_with_sequence_lengths(
             ' are valid in the vocabulary, or increase'
             ' chars_per_token_upper_bound.'
         )
-      for start_index in range(len(all_ids) - num_tokens):
+      for start_index in range(len(all_ids) - num_tokens + 1):
         # Truncating may return an empty string for some IDs, for example
         # vocabulary.decode([3]), so search for an ID subarray whose
         # resulting string actually has the correct length.
-- 
2.43.0


From 14347b1d7e210fb7882a93e1cafab84b99416227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 46/64] fix: export without a partitioner keeps the saved types
 when no dtype is configured

---
 t5x/export_lib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 1bf0a71..5ea00e8 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -451,7 +451,11 @@ def load_params_from_checkpoint(
         state_transformation_fns=(
             restore_checkpoint_cfg.state_transformation_fns
         ),
-        restore_dtype=jnp.dtype(restore_checkpoint_cfg.dtype),
+        restore_dtype=(
+            None
+            if restore_checkpoint_cfg.dtype is None
+            else jnp.dtype(restore_checkpoint_cfg.dtype)
+        ),
     )
     return frozen_dict.freeze(variables['target'])
 
-- 
2.43.0


From ad914d3664a29f9722b3bcc0a30e28ce51450bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 47/64] fix: exported models append EOS to the tokens rather
 than to their padding

---
 t5x/export_lib.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 5ea00e8..9e69523 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -500,6 +500,15 @@ def bucketize_tokenized_input(
   return tf.constant(bucket_keys)[index]
 
 
+def _strip_padding(tokens: tf.Tensor) -> tf.Tensor:
+  """Removes the trailing padding of a pre-tokenized example."""
+  positions = tf.range(1, tf.shape(tokens)[0] + 1)
+  length = tf.reduce_max(
+      tf.concat([[0], tf.where(tf.not_equal(tokens, 0), positions, 0)], axis=0)
+  )
+  return tokens[:length]
+
+
 def truncate_and_pad_tokenized_input(
     input_tensor: tf.Tensor,
     max_length: int,
@@ -612,6 +621,8 @@ def create_preprocessor(
         t = vocab.encode_tf(text)
       else:
         t = text
+        if output_features[k].add_eos:
+          t = _strip_padding(t)
       if output_features[k].add_eos:
         # The following matches the default behavior of the prediction server,
         # which uses seqio.preprocessors.append_eos_after_trim, implemented at:
@@ -697,6 +708,8 @@ def create_dual_encoder_preprocessor(
         t = vocab.encode_tf(text)
       else:
         t = text
+        if output_features[k].add_eos:
+          t = _strip_padding(t)
       if output_features[k].add_eos:
         t = tf.concat([t[: length - 1], [vocab.eos_id]], axis=0)
       allowed_lengths = bucket_keys.get(k) if bucket_keys else None
@@ -761,6 +774,8 @@ def create_decoder_preprocessor(
         t = vocab.encode_tf(text)
       else:
         t = text
+        if feature.add_eos:
+          t = _strip_padding(t)
       if feature.add_eos:
         t = tf.concat([t, [vocab.eos_id]], axis=-1)
       return t
-- 
2.43.0


From 4ed82578afb5ad99568f9ccea76a130d93eeab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 48/64] fix: prediction leaves the caller's decoder_params
 unmodified

predict_batch_with_aux stored its own rng, eos_id and prefill index in the
dictionary it was given, so that a second call with the same dictionary
raised an error or reused values of the first.
---
 t5x/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t5x/models.py b/t5x/models.py
index 4ca0783..3ce612b 100644
--- a/t5x/models.py
+++ b/t5x/models.py
@@ -714,8 +714,8 @@ class EncoderDecoderModel(BaseTransformerModel):
         max_decode_length=decoder_input_tokens.shape[1],
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # Copied, as entries that belong to this call only are added below.
+    decoder_params = dict(decoder_params or {})
     if initial_index is not None:
       # We only set initial_index when it's non-None since it is not supported
       # by all decoders.
@@ -1201,8 +1201,8 @@ class DecoderOnlyModel(BaseTransformerModel):
         max_decode_length=max_decode_length,
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # Copied, as entries that belong to this call only are added below.
+    decoder_params = dict(decoder_params or {})
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
-- 
2.43.0


From 9c08d1e945a0b0da54eda5a10381eb9dbad332ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 49/64] fix: interactive evaluation works with score metrics
 only

aux_values was unbound unless some metric function needs predictions.
---
 t5x/interactive_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index ea453d7..5faa0ca 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -784,6 +784,7 @@ class InteractiveModel(abc.ABC):
 
     # Get predictions.
     predictions = []
+    aux_values = {}
     if predict_with_aux_metric_fns or predict_metric_fns:
       predictions, aux_values = self.infer_with_preprocessors(
           mode=InferenceType.PREDICT_WITH_AUX,
-- 
2.43.0


From ac5ff0f1ec786a5cdca4165d9e1a520d31c0ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 50/64] fix: interactive inference joins nested auxiliary
 values of several batches

The intermediates returned by scoring are nested dictionaries, which do not
support +=.
---
 t5x/interactive_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 5faa0ca..84c24fc 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -564,8 +564,12 @@ class InteractiveModel(abc.ABC):
       if not all_aux_values:
         all_aux_values = aux_values
       else:
-        for key, values in aux_values.items():
-          all_aux_values[key] += values
+        all_aux_values = jax.tree.map(
+            lambda old, new: old + new,
+            all_aux_values,
+            aux_values,
+            is_leaf=lambda v: isinstance(v, list),
+        )
 
     return all_inferences, all_aux_values
 
-- 
2.43.0


From e45e60cc5c9bb7b773da5738045752448a587545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 51/64] fix: interactive train_loop runs num_steps steps on a
 shorter list of batches

The list was repeated length // len(batches) times, which is too short unless
the length is a multiple of it.
---
 t5x/interactive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 84c24fc..c93e43d 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -1020,7 +1020,7 @@ def _get_equal_length_batches(
   if isinstance(batches[0], Mapping):
     return [batches for i in range(length)]
   if len(batches) < length:
-    batches = batches * (length // len(batches))
+    batches = batches * -(-length // len(batches))
   # If multiple batches are provided, only use the first `length` batches.
   logging.warning(
       "We will only use the first %s batches provided for training.", length
-- 
2.43.0


From ff2e9968c5bdfffdab18ccd7187876f3ff784726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 52/64] fix: interactive train_loop accepts a single batch to
 predict, score or evaluate

As documented; its examples were taken for batches.
---
 t5x/interactive_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index c93e43d..c61aa7b 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -871,6 +871,9 @@ class InteractiveModel(abc.ABC):
     """
     # Ensure all batches are `num_steps` in length
     train_batches = _get_equal_length_batches(train_batches, num_steps)
+    predict_batches = _as_list_of_batches(predict_batches)
+    score_batches = _as_list_of_batches(score_batches)
+    eval_batches = _as_list_of_batches(eval_batches)
 
     predictions = None
     scores = None
@@ -995,6 +998,13 @@ def get_dataset_from_natural_text_examples(
   return dataset.prefetch(tf.data.experimental.AUTOTUNE)
 
 
+def _as_list_of_batches(batches: Optional[BatchesType]) -> Sequence[Any]:
+  """Returns a list of batches, given a list of batches or a single batch."""
+  if not batches:
+    return []
+  return [batches] if isinstance(batches[0], Mapping) else batches
+
+
 def _get_equal_length_batches(
     batches: BatchesType, length: int
 ) -> Sequence[Any]:
-- 
2.43.0


From b89cee360d50cfc4155bc9f4c8166defd769165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 53/64] fix: an interactive model resumes from its output
 directory

Without checkpoint_path the checkpoint manager had no checkpointer to restore
with, so that creation failed once the directory held a checkpoint.
---
 t5x/interactive_model.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index c61aa7b..26abbc4 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -201,18 +201,6 @@ class InteractiveModel(abc.ABC):
         partitioner=self._partitioner,
     )
 
-    # Initialize checkpoint manager.
-    self._checkpoint_manager = utils.LegacyCheckpointManager(
-        save_cfg=self._save_checkpoint_cfg,
-        restore_cfg=self._restore_checkpoint_cfg,
-        train_state_shape=(
-            self._train_state_initializer.global_train_state_shape
-        ),
-        partitioner=self._partitioner,
-        ds_iter=None,
-        model_dir=self._output_dir,
-    )
-
     # --------------------------------------------------------------------------
     # Restore a model from a checkpoint or from scratch.
     # --------------------------------------------------------------------------
@@ -255,6 +243,17 @@ class InteractiveModel(abc.ABC):
     valid_restore_cfg, restore_paths = (
         utils.get_first_valid_restore_config_and_paths(restore_cfgs)
     )
+    # Initialize checkpoint manager.
+    self._checkpoint_manager = utils.LegacyCheckpointManager(
+        save_cfg=self._save_checkpoint_cfg,
+        restore_cfg=valid_restore_cfg,
+        train_state_shape=(
+            self._train_state_initializer.global_train_state_shape
+        ),
+        partitioner=self._partitioner,
+        ds_iter=None,
+        model_dir=self._output_dir,
+    )
     self._train_state = self._checkpoint_manager.restore(
         restore_paths,
         valid_restore_cfg,
-- 
2.43.0


From fdcc4e1cd4f13238a8e818f0667c19ccd8ac7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:02 +0000
Subject: [PATCH 54/64] fix: hosts that share a data shard restore its iterator
 from Orbax checkpoints

Only the first host of a replica set writes the dataset iterator state, but
OrbaxCheckpointManagerInterface also restored it only there. The other hosts of
the set kept their fresh iterator after a restart, and so fed different
examples for the same rows of the global batch. Restore the shared state on
all of them, as Checkpointer does.
---
 t5x/checkpoints.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 55ab00c..60f80fe 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2027,20 +2027,28 @@ class DatasetCheckpointHandler(ocp.CheckpointHandler):
     Returns:
       a tf.data.Iterator restored from `directory`.
     """
-    if self._should_write_dataset_ckpt:
-      if args is None:
-        raise ValueError('Must provide args to restore.')
-      item = args.item
-      if jax.process_count() > 1:
-        directory /= f'process_{jax.process_index()}-of-{jax.process_count()}'
-      if isinstance(item, tf.data.Iterator):
-        ckpt = tf.train.Checkpoint(ds=item)
-        ckpt.read(
-            os.fspath(directory / self._checkpoint_filename)
-        ).assert_consumed()
-      elif isinstance(item, clu.data.dataset_iterator.DatasetIterator):
-        item.load(os.fspath(directory / self._checkpoint_filename))
-      return item
+    if args is None and self._should_write_dataset_ckpt:
+      raise ValueError('Must provide args to restore.')
+    item = args.item if args is not None else None
+    if item is None and not self._should_write_dataset_ckpt:
+      return None
+    if jax.process_count() > 1:
+      process_dir = f'process_{jax.process_index()}-of-{jax.process_count()}'
+      if not self._should_write_dataset_ckpt:
+        # The first host of the replica set has written the shared state.
+        written = directory.glob(
+            f'process_*-of-{jax.process_count()}/{self._checkpoint_filename}*'
+        )
+        process_dir = next(iter(written)).parent.name
+      directory /= process_dir
+    if isinstance(item, tf.data.Iterator):
+      ckpt = tf.train.Checkpoint(ds=item)
+      ckpt.read(
+          os.fspath(directory / self._checkpoint_filename)
+      ).assert_consumed()
+    elif isinstance(item, clu.data.dataset_iterator.DatasetIterator):
+      item.load(os.fspath(directory / self._checkpoint_filename))
+    return item
 
 
 @ocp.args.register_with_handler(
@@ -2518,7 +2526,7 @@ class OrbaxCheckpointManagerInterface:
             legacy_transform_fn=transform_fn,
         ),
     }
-    if self._should_write_dataset_ckpt:
+    if self._dataset_iterator:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
@@ -2529,7 +2537,7 @@ class OrbaxCheckpointManagerInterface:
         else x,
         restored[_STATE_KEY],
     )
-    if self._should_write_dataset_ckpt:
+    if self._dataset_iterator:
       self._dataset_iterator = restored[_DATASET_KEY]
 
     # Merge restored state dict with fallback state to fill in any remaining
-- 
2.43.0


From 977ba934f383aa995c75340bdf7deae98f7d5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 55/64] fix: CALM decoding accepts max_decode_steps

The buffers of confidences and exits were given max_decode_len as a dimension,
which is an array of per-example lengths once max_decode_steps is set.
---
 t5x/contrib/calm/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 93376c1..bd68fb3 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -477,8 +477,8 @@ def _temperature_sample_single_trial(
   # as well as the generated output of newly sampled tokens.
   sequences0 = expanded_prompt_inputs
   log_prob0 = jnp.zeros((batch_size,), dtype=jnp.float32)
-  confidences0 = -1.0 * jnp.ones((batch_size, max_decode_len), jnp.float32)
-  exits0 = -1 * jnp.ones((batch_size, max_decode_len), jnp.int32)
+  confidences0 = -1.0 * jnp.ones(inputs.shape, jnp.float32)
+  exits0 = -1 * jnp.ones(inputs.shape, jnp.int32)
   sampling_loop_init_state = SamplingLoopState(
       i0,
       sequences0,
-- 
2.43.0


From 243a8162d15210927dacfbb19c2a91b3ac830bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 56/64] fix: CALM propagates the state of the exit layer to the
 skipped layers

The keys and values of skipped layers were computed from the output of the
first segment whatever the layer a token exited at, instead of from the last
computed layer.
---
 t5x/contrib/calm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index a107dde..e449cf4 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -840,7 +840,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           raw_inputs,  # only needed for encoder padding mask
           flat_ids,
           flat_ids,
-          decoder_hidden,
+          new_decoder_hidden,
       )
       new_flat_cache = new_vars['cache']
 
-- 
2.43.0


From 81627f476d97bc3d12df6d70526eb23d5f5c5374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 57/64] fix: CALM's oracle cache runs every remaining segment
 once

With exit_interval > 1 a token that had used all layers ran the last segment
a second time, writing its keys twice.
---
 t5x/contrib/calm/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index e449cf4..54e2519 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -811,8 +811,8 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
     if self.oracle_cache:
       # Run the rest of the layers to compute the real cache (oracle setting).
       def cond_fn_complete_run(state):
-        _, _, _, _, _, layer, _ = state
-        return layer < num_layers - 1
+        _, _, _, _, interval, _, _ = state
+        return interval < len(comp_intervals)
 
       post_exit_state = (
           flat_logits,
@@ -820,7 +820,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           new_flat_cache,
           conf,
           interval,
-          layer - self.exit_interval,
+          layer,
           new_meta_score,
       )
       _, _, new_flat_cache, _, _, _, _ = lax.while_loop(
-- 
2.43.0


From a2d6957e2f6925a6df19efb099bb5c273aacda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 58/64] fix: CALM's position-adjusted threshold follows the
 decoding position

Nothing passed the position, so that the threshold was that of position 0 at
every step.
---
 t5x/contrib/calm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 54e2519..bc99dee 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -544,13 +544,13 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
       raw_inputs: jnp.ndarray,
       max_decode_length: int,
       conf_threshold: float,
-      pos: int = 0,
   ) -> Tuple[jnp.ndarray, Mapping[str, jnp.ndarray], jnp.ndarray, jnp.ndarray]:
     """Token slice to logits from decoder model with early exit mechanism."""
 
     num_layers = self.decoder_layers
     flat_ids: jnp.ndarray = decoding_state.cur_token
     flat_cache: Mapping[str, jnp.ndarray] = decoding_state.cache
+    pos = decoding_state.cur_index
 
     if self.oracle_tok_consistency or self.oracle_tok_noisy_cache:
       # Compute the prediction of the full model for reference for the oracle.
-- 
2.43.0


From ebcb94547336b5a8c591f92f72b69d47b463044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 59/64] fix: CALM's state confidence works on batches

The inner product of all pairs of examples, over the norm of the whole batch,
made decoding fail for more than one example.
---
 t5x/contrib/calm/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index bc99dee..5725e86 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -219,10 +219,10 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
       # Computes the confidence by the cosine similarity between the current
       # hidden state and the previous one.
       assert prev_state is not None and new_state is not None
-      conf = jnp.inner(prev_state, new_state) / (
-          jnp.linalg.norm(prev_state) * jnp.linalg.norm(new_state)
+      return jnp.sum(prev_state * new_state, axis=-1) / (
+          jnp.linalg.norm(prev_state, axis=-1)
+          * jnp.linalg.norm(new_state, axis=-1)
       )
-      return conf.squeeze()
 
     elif self.conf_method == 'meta':
       # Using scores from early-exit classifier (already given in input).
@@ -616,7 +616,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
 
     if self.conf_method == 'state':
       # Always skip the first 'exit' since previous state is missing.
-      conf = 0
+      conf = jnp.zeros(decoder_hidden.shape[:-1], decoder_hidden.dtype)
     else:
       conf = self.get_pred_confidence(logits=flat_logits, meta_score=meta_score)
 
-- 
2.43.0


From e927b1ad64530650939f501112bcff0e45472e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 60/64] fix: CALM prediction leaves the caller's decoder_params
 unmodified

As in t5x/models.py, the call stored its own rng and eos_id in the dictionary it
was given, so that a second call with the same dictionary raised an error.
---
 t5x/contrib/calm/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 5725e86..3d4f5b7 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -971,8 +971,8 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           max_decode_length=target_shape[1],
       )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # Copied, as entries that belong to this call only are added below.
+    decoder_params = dict(decoder_params or {})
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
-- 
2.43.0


From 8a9fdcfbd609de1630704fb5c5ebf20a59ae9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 61/64] fix: CALM models predict without early inference

Without early inference there are no exits and confidences, and indexing the
empty lists raised an error unless all decodes were asked for.
---
 t5x/contrib/calm/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 3d4f5b7..6b2bfc0 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -1028,8 +1028,10 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           'confidences': confidences,
       }
     else:
+      if self.apply_early_inference:
+        exits, confidences = exits[:, -1, :], confidences[:, -1, :]
       return decodes[:, -1, :], {
           'scores': scores[:, -1],
-          'exits': exits[:, -1, :],
-          'confidences': confidences[:, -1, :],
+          'exits': exits,
+          'confidences': confidences,
       }
-- 
2.43.0


From 0e388fe08b09acc9a3683ea7b17ad5d77a0debc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 62/64] fix: CALM's oracle cache works with every confidence
 measure

The loop over the remaining layers carries no logits unless the confidence
measure needs them, but was given some.
---
 t5x/contrib/calm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 6b2bfc0..9db9ed3 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -815,7 +815,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
         return interval < len(comp_intervals)
 
       post_exit_state = (
-          flat_logits,
+          flat_logits if 'softmax' in self.conf_method else None,
           new_decoder_hidden,
           new_flat_cache,
           conf,
-- 
2.43.0


From 7a1c83520c43783c2d283c0bae9a1ec857dbd5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 63/64] fix: CALM records confidences and exits per example

With max_decode_steps and prompts of different lengths an example that has
ended stays at its last position. Its position was taken as a column for the
whole batch, overwriting what the other examples had recorded there, and as the
position of the batch for the adjusted threshold.
---
 t5x/contrib/calm/decoding.py | 5 +++--
 t5x/contrib/calm/models.py   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index bd68fb3..9696468 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -653,8 +653,9 @@ def _temperature_sample_single_trial(
         | jnp.expand_dims(i >= max_decode_len - 1, axis=1)
     )
 
-    new_conf = confidences.at[:, i].set(conf)
-    new_exits = exits.at[:, i].set(exit_layer)
+    rows = jnp.arange(batch_size)
+    new_conf = confidences.at[rows, i].set(conf.reshape(batch_size))
+    new_exits = exits.at[rows, i].set(exit_layer)
 
     return SamplingLoopState(
         i + 1,
diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 9db9ed3..e9caffb 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -772,7 +772,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
             / 10
             + 9 * conf_threshold / 10
         )
-        adjusted_threshold = correct_by_pos(jnp.min(pos))
+        adjusted_threshold = correct_by_pos(jnp.max(pos))
       else:
         adjusted_threshold = conf_threshold
 
-- 
2.43.0


From 01e1462690d6543635c48867a3eb0a09f43f0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 64/64] fix: hosts that span several Z planes are tiled into
 contiguous parts of the mesh

---
 t5x/partitioning.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/t5x/partitioning.py b/t5x/partitioning.py
index 2ea7b94..9d7e986 100644
--- a/t5x/partitioning.py
+++ b/t5x/partitioning.py
@@ -176,8 +176,10 @@ def get_mesh(model_parallel_submesh: HardwareMesh,
                                          model_parallel_submesh)
     gx, gy, gz, gc = global_hardware_mesh
     mx, my, mz, mc = model_parallel_submesh
-    if (mx == gx > 1 and my == mz == 1) or (mx == 1 and my == gy > 1 and
-                                            mz == gz > 1):
+    # Only hosts that span a single Z plane are contiguous in Z-major order.
+    flat_hosts = local_hardware_mesh[2] == 1
+    if flat_hosts and ((mx == gx > 1 and my == mz == 1) or
+                       (mx == 1 and my == gy > 1 and mz == gz > 1)):
       logging.info('ensuring YZ plane has a Z-major device order')
       # YZ should be ZY
       assert mc == gc, (mc, gc)
@@ -185,8 +187,8 @@ def get_mesh(model_parallel_submesh: HardwareMesh,
       model_parallel_submesh = mx, mz, my, mc
       devices = devices.swapaxes(1, 2)
       tile_by_host = False
-    if (my == gy > 1 and mx == mz == 1) or (my == 1 and mx == gx > 1 and
-                                            mz == gz > 1):
+    if flat_hosts and ((my == gy > 1 and mx == mz == 1) or
+                       (my == 1 and mx == gx > 1 and mz == gz > 1)):
       logging.info('ensuring XZ plane has a Z-major device order')
       # XZ should be ZX
       assert mc == gc, (mc, gc)
-- 
2.43.0

