From 394f4a955c5b29d41ec6a3e768a118cbfdf78a38 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 01/42] fix: let load_t5x_checkpoint read checkpoints with
 empty state nodes

---
 t5x/checkpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ada1b4e..6966196 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1783,6 +1783,9 @@ def fake_param_info(maybe_tspec: Any) -> Optional[_ParameterInfo]:
   # during loading.
   if maybe_tspec is None:
     return None
+  # Empty nodes, e.g. the state of a stateless optimizer, have nothing to read.
+  if maybe_tspec is traverse_util.empty_node:
+    return maybe_tspec
   local_chunk_info = None
   tspec = None
   if isinstance(maybe_tspec, ts.Spec):
-- 
2.43.0


From 819110107a5b53a3e6b0a24304b7db209a3a0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 02/42] fix: do not hang when saving an array as large as the
 concurrent_gb limit

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 6966196..c808d37 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -431,7 +431,7 @@ class _BytesConditionVariable(object):
 
   async def wait_for_bytes(self, n_bytes):
     async with self._cv:
-      await self._cv.wait_for(lambda: self._num_bytes > n_bytes)
+      await self._cv.wait_for(lambda: self._num_bytes >= n_bytes)
       self._num_bytes -= n_bytes
       assert self._num_bytes >= 0
 
-- 
2.43.0


From e0919c0dfa76e1d2bbdb9a635d5a015bc112bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 03/42] fix: apply concurrent_gb to all arrays of a save
 together

---
 t5x/checkpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index c808d37..8cf0b88 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -853,6 +853,8 @@ class Checkpointer(object):
   ) -> Mapping[str, Any]:
     """Writes extracted state from train state to Tensorstore."""
     concurrent_bytes = concurrent_gb * 10**9
+    # Shared by all arrays, so that the limit applies to their total size.
+    bytes_cv = _BytesConditionVariable(concurrent_bytes)
 
     async def _write_array(
         maybe_arr: Any, param_info: Optional[_ParameterInfo], cast: bool = False
@@ -870,8 +872,6 @@ class Checkpointer(object):
       Returns:
         Tensorstore spec corresponding to the written array.
       """
-      bytes_cv = _BytesConditionVariable(concurrent_bytes)
-
       if isinstance(maybe_arr, LazyArray):
         maybe_arr = await maybe_arr.get_async()
 
-- 
2.43.0


From 5e7dc6be4a1f09823563db0501832a60fd72f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 04/42] fix: let Checkpointer.restore() pick a latest
 checkpoint at step 0

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 8cf0b88..50cc5cc 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1036,7 +1036,7 @@ class Checkpointer(object):
     else:
       if step is None:
         step = self.latest_step()
-        if not step:
+        if step is None:
           raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
       ckpt_path = self._get_checkpoint_dir(step)
 
-- 
2.43.0


From 07eed15692cdf1c7bf1c39854561c496f9e1e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 05/42] fix: never list a checkpoint whose deletion was
 interrupted

---
 t5x/checkpoint_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoint_utils.py b/t5x/checkpoint_utils.py
index 4ed726d..03bcf91 100644
--- a/t5x/checkpoint_utils.py
+++ b/t5x/checkpoint_utils.py
@@ -82,7 +82,18 @@ def remove_checkpoint_dir(ckpt_dir: str) -> None:
   """Removes the checkpoint dir if it is not pinned."""
   if not is_pinned_checkpoint(ckpt_dir):
     logging.info('Deleting checkpoint: %s', ckpt_dir)
-    gfile.rmtree(ckpt_dir)
+    ckpt_dir = os.fspath(ckpt_dir).rstrip('/')
+    if ckpt_dir.startswith('gs://'):
+      # Renaming a directory is neither cheap nor atomic on GCS.
+      gfile.rmtree(ckpt_dir)
+      return
+    # Move the checkpoint out of the way first, so that an interrupted deletion
+    # does not leave a partial directory that looks like a valid checkpoint.
+    trash_dir = f'{ckpt_dir}.tmp-deleted'
+    if gfile.exists(trash_dir):
+      gfile.rmtree(trash_dir)
+    gfile.rename(ckpt_dir, trash_dir)
+    gfile.rmtree(trash_dir)
   else:
     logging.info('Keeping pinned checkpoint: %s', ckpt_dir)
 
-- 
2.43.0


From f2253267b9f1fb9ee3334a7a221d41d7a39eaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 06/42] fix: let load_t5x_checkpoint cast only the target to
 restore_dtype

---
 t5x/checkpoints.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 50cc5cc..37a8fa3 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1935,15 +1935,18 @@ def load_t5x_checkpoint(
         maybe_ts_spec, get_fn, dtype=restore_dtype
     )
 
-  state_dict = jax.tree_util.tree_map(
-      functools.partial(
-          _create_lazy_awaitable_array,
-          ckpt_path=path,
-          restore_dtype=restore_dtype,
-      ),
-      param_infos,
-      ckpt_optimizer_state_with_specs,
-  )
+  state_dict = {}
+  for k in param_infos.keys():
+    # ensure that only 'target' is cast
+    state_dict[k] = jax.tree_util.tree_map(
+        functools.partial(
+            _create_lazy_awaitable_array,
+            ckpt_path=path,
+            restore_dtype=restore_dtype if k == 'target' else None,
+        ),
+        param_infos[k],
+        ckpt_optimizer_state_with_specs[k],
+    )
 
   if not lazy_parameters:
     future_state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From ab72ea3ff63c069c043594c659b2eb3b6d9270eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 07/42] fix: mark inference results complete before deleting
 their chunks

A crash while the temporary directory is being deleted left a directory with
some of the chunks and of the input iterator's checkpoint. A restart then
failed to read the checkpoint, or merged the remaining chunks into a truncated
result and marked it as complete.
---
 t5x/infer.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 4771216..955d6a9 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -552,6 +552,19 @@ def infer(
     tmp_dir = os.path.join(
         output_dir, f'tmp-{task.name}-{shard_id:05}-of-{num_shards:05}'
     )
+    output_fname = (
+        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
+    )
+    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
+      logging.info(
+          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
+          output_fname,
+          shard_id,
+          num_shards,
+          task.name,
+      )
+      return
+
     if jax.process_index() == 0:
       gfile.makedirs(tmp_dir)
 
@@ -586,18 +599,6 @@ def infer(
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
-    output_fname = (
-        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
-    )
-    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
-      logging.info(
-          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
-          output_fname,
-          shard_id,
-          num_shards,
-          task.name,
-      )
-      return
     logging.info(
         "Starting inference loop for shard %d of %d of task '%s'.",
         shard_id,
@@ -720,8 +721,6 @@ def infer(
     if jax.process_index() == 0 and merge_chunked_results:
       step = None if train_state is None else int(train_state.step)
       merge_fn(output_dir, output_fname, tmp_dir, step)
-      logging.info('Deleting temporary files.')
-      gfile.rmtree(tmp_dir)
 
     if jax.process_index() == 0:
       with gfile.GFile(
@@ -729,6 +728,12 @@ def infer(
       ) as f:
         f.write('')
 
+    # Only once the results are marked as complete, since a restart could not
+    # tell a partially deleted directory from one that is not filled yet.
+    if jax.process_index() == 0 and merge_chunked_results:
+      logging.info('Deleting temporary files.')
+      gfile.rmtree(tmp_dir)
+
     # Wait for host 0 to finish writing before exiting.
     utils.sync_global_devices(f'{task.name}:complete')
 
-- 
2.43.0


From c10207ca40c176df791104cd233186ba948ef60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 08/42] fix: restart inference from the input checkpoint of the
 last complete chunk

The input iterator's checkpoint was renamed into place one file at a time. A
crash or an error between the renames left the data of one checkpoint with the
index of another, which no restart could read. The completion marker of the
chunk now decides which checkpoint is used.
---
 t5x/infer.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 955d6a9..307b1b4 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -592,10 +592,24 @@ def infer(
 
     if checkpoint_ds_iter:
       # Create checkpoint manager and restore state, if applicable.
-      ckpt_path = os.path.join(tmp_dir, 'input.ckpt')
-
       input_ckpt = tf.train.Checkpoint(ds=infer_ds_iter)
-      if gfile.glob(ckpt_path + '*'):
+      # The input checkpoint of a chunk is valid once the chunk is completed.
+      # The last one is used, where the writing of results left off.
+      ckpt_chunks = [
+          int(os.path.basename(path)[: -len('.ckpt.index')])
+          for path in gfile.glob(os.path.join(tmp_dir, '[0-9]*.ckpt.index'))
+      ]
+      ckpt_chunks = [
+          chunk
+          for chunk in ckpt_chunks
+          if gfile.exists(
+              os.path.join(
+                  tmp_dir, f'{output_fname}-chunk{chunk:05}.COMPLETED'
+              )
+          )
+      ]
+      if ckpt_chunks:
+        ckpt_path = os.path.join(tmp_dir, f'{max(ckpt_chunks)}.ckpt')
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
@@ -606,7 +620,7 @@ def infer(
         task.name,
     )
 
-    def _write_chunk_and_canonicalize_ckpt(
+    def _write_chunk_and_remove_old_ckpt(
         chunk: int,
         chunk_path: str,
         inferences: Inferences,
@@ -632,11 +646,10 @@ def infer(
       )
 
       if chunk_ckpt_path:
-        # Canonicalize checkpoint.
-        for fname in gfile.glob(chunk_ckpt_path + '*'):
-          gfile.rename(
-              fname, fname.replace(chunk_ckpt_path, ckpt_path), overwrite=True
-          )
+        # The checkpoint of this chunk is now the one to restart from, so that
+        # the previous one can be deleted.
+        for fname in gfile.glob(os.path.join(tmp_dir, f'{chunk - 1}.ckpt.*')):
+          gfile.remove(fname)
 
     # Main Loop over "chunks".
     for chunk, chunk_batch in infer_ds_iter:
@@ -687,22 +700,21 @@ def infer(
 
         chunk_ckpt_path = None
         if checkpoint_ds_iter:
-          # Store iterator checkpoint in temporary location before writing the
-          # model output asynchronously. After outputs are written, the
-          # checkpoint will be moved to the canonical location to be used if
-          # restart occurs.
+          # Store iterator checkpoint before writing the model output
+          # asynchronously. It will be used if restart occurs after the outputs
+          # are written and marked as completed.
           ckpt_tick = time.time()
           chunk_ckpt_path = input_ckpt.write(
               os.path.join(tmp_dir, f'{chunk}.ckpt')
           )
           logging.info(
-              'Checkpoint written to temporary location in %02f seconds.',
+              'Checkpoint written in %02f seconds.',
               time.time() - ckpt_tick,
           )
 
         # These will execute sequentially since the ThreadPool size is 1.
         write_thread_pool.submit(
-            _write_chunk_and_canonicalize_ckpt,
+            _write_chunk_and_remove_old_ckpt,
             chunk=chunk,
             chunk_path=chunk_path,
             inferences=inferences,
-- 
2.43.0


From dbe05024281ad1815d908e0638e3c352167e2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 09/42] fix: let no host of an inference job outrun the restart
 of the others

When a job was restarted with all chunks written, host 0 went straight on to
merge and delete them. A slower host then found nothing to restart from, began
again at the first chunk and waited forever for the others.
---
 t5x/infer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t5x/infer.py b/t5x/infer.py
index 307b1b4..7cb63ea 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -726,6 +726,8 @@ def infer(
       utils.sync_global_devices(f'{task.name}:checkpoint_chunk{chunk:05}')
 
     logging.info("Finished inference for task '%s'.", task.name)
+    # Host 0 must not delete what the other hosts decide by where to restart.
+    utils.sync_global_devices(f'{task.name}:inference_finished')
 
     logging.info('Waiting for chunk writes to complete.')
     write_thread_pool.shutdown(wait=True)
-- 
2.43.0


From f4ca0980af7cd2e8ba202fdc3a59102e9a4850a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 10/42] fix: record evaluated checkpoints atomically, whatever
 their paths contain

---
 t5x/eval.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index aa9dd45..511db25 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -196,7 +196,7 @@ def _load_evaluated_ckpt_paths(eval_ckpt_path: str) -> Set[str]:
   if not gfile.exists(eval_ckpt_path):
     return set()
   with gfile.GFile(eval_ckpt_path, 'r') as f:
-    return set(f.read().split())
+    return set(f.read().splitlines())
 
 
 def evaluate(
@@ -388,11 +388,14 @@ def evaluate(
     # Wait until computations are done before continuing.
     utils.sync_global_devices(f'step_{host_step}:complete')
     if jax.process_index() == 0:
-      # Read/write/replace rather than append to avoid filesystem issue.
+      # Read/write/replace rather than append to avoid filesystem issue. Write to
+      # a temporary file first so that a crash cannot leave a truncated path.
       evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
       evaluated_ckpt_paths.add(ckpt_path)
-      with gfile.GFile(eval_ckpt_path, 'w') as f:
+      tmp_eval_ckpt_path = eval_ckpt_path + '.tmp'
+      with gfile.GFile(tmp_eval_ckpt_path, 'w') as f:
         f.write('\n'.join(_sorted_ckpt_paths(evaluated_ckpt_paths)))
+      gfile.rename(tmp_eval_ckpt_path, eval_ckpt_path, overwrite=True)
 
   logging.info('Finished.')
 
-- 
2.43.0


From 2df5b0d7ddca6f3b91e38a5b438b3e900f1c969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 11/42] fix: do not save the input iterator ahead of the
 initial checkpoint

---
 t5x/train.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index baa989a..320d3d0 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -380,10 +380,6 @@ def train(
         )
     )
 
-  # Start warming up the input pipeline in the background. This must happen
-  # after input pipeline checkpoints were restored.
-  first_batch_ready = train_iter.peek_async()
-
   # 3. If no checkpoint to restore, init from scratch.
   train_state = train_state or train_state_initializer.from_scratch(init_rng)
   train_state_axes = train_state_initializer.train_state_axes
@@ -569,6 +565,12 @@ def train(
           checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
       )
 
+  # Start warming up the input pipeline in the background. This must happen
+  # after input pipeline checkpoints were restored, and after the checkpoint
+  # above was saved: the iterator state that it contains would otherwise be past
+  # a batch that has not been trained on.
+  first_batch_ready = train_iter.peek_async()
+
   # If we take manual control of the garbage collector, we need to disable it
   # before starting training.
   if gc_period:
-- 
2.43.0


From d7c0d4e34fef3e1df0a4f8a38da415f98d6c4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 12/42] fix: keep the steps done when Trainer.train is
 interrupted

---
 t5x/trainer.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 965bd09..5f3c87a 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -555,19 +555,22 @@ class BaseTrainer(abc.ABC):
           start_step if start_step is not None else train_state.step
       )
       self.train_metrics_manager.start_duration_timer(block_on=train_state)
-      for step_num in range(start_step, start_step + num_steps):
-        logging.log_every_n_seconds(
-            logging.INFO, "Training: step %d", 10, step_num
-        )
-        with jax.profiler.StepTraceAnnotation("train", step_num=step_num):
-          batch = next(batch_iter)
-          train_state, metrics_update = train_step_fn(train_state, batch)
-          if metrics:
-            metrics = merge_metrics(metrics, metrics_update)
-          else:
-            metrics = metrics_update
-
-      self.train_state = train_state
+      try:
+        for step_num in range(start_step, start_step + num_steps):
+          logging.log_every_n_seconds(
+              logging.INFO, "Training: step %d", 10, step_num
+          )
+          with jax.profiler.StepTraceAnnotation("train", step_num=step_num):
+            batch = next(batch_iter)
+            train_state, metrics_update = train_step_fn(train_state, batch)
+            if metrics:
+              metrics = merge_metrics(metrics, metrics_update)
+            else:
+              metrics = metrics_update
+      finally:
+        # Also when interrupted (e.g., by a PreemptionError): the steps donated
+        # the buffers of the previous state, so that only this one can be saved.
+        self.train_state = train_state
 
     if metrics is not None:
       metrics["timing/uptime"] = clu.metrics.LastValue.from_model_output(
-- 
2.43.0


From 0e519f93d324a826f23cd94b6d821b87d74e390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 13/42] fix: train no negative number of steps after the last
 of checkpoint_steps

---
 t5x/train.py |  2 +-
 t5x/utils.py | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 320d3d0..bda5820 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -715,7 +715,7 @@ def train(
             first_step,
         )
         # Handled separately if this is the overall last step.
-        if host_step + inner_num_steps == total_steps:
+        if checkpoint_period and host_step + inner_num_steps == total_steps:
           is_checkpoint_step = False
 
         train_summary = trainer.train(
diff --git a/t5x/utils.py b/t5x/utils.py
index 15c872d..df49d51 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2288,17 +2288,17 @@ def find_next_checkpoint_step(
     host_step: int,
     checkpoint_steps: Sequence[int],
     epoch_end_step: int,
-    checkpoint_period: int,
+    checkpoint_period: Optional[int],
     first_step: int,
 ):
   """Finds next valid checkpoint step in checkpoint_steps list parameter.
 
   This will stop scalar training and save a checkpoint at that step.
   Checkpoint step is considered valid if less than or equal to epoch end step,
-  not at a concurrent checkpoint_period step, and greater than the first
-  step. Specifically, this will decrease inner_num_steps (the current number
-  of scalar steps to train) if host_step + inner_num_steps would otherwise
-  pass a desired checkpoint step.
+  not at a concurrent checkpoint_period step, and greater than the first step
+  and host_step. Specifically, this will decrease inner_num_steps (the current
+  number of scalar steps to train) if host_step + inner_num_steps would
+  otherwise pass a desired checkpoint step.
 
   Args:
     checkpoint_steps_index: Current index in checkpoint_steps list while
@@ -2328,8 +2328,11 @@ def find_next_checkpoint_step(
   ):
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
-        ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
-        and curr_checkpoint_step > first_step
+        (
+            not checkpoint_period
+            or (curr_checkpoint_step - first_step) % checkpoint_period != 0
+        )
+        and curr_checkpoint_step > max(first_step, host_step)
         and curr_checkpoint_step <= epoch_end_step
     ):
       # Found a checkpoint step before inner_num_steps + host_step that
-- 
2.43.0


From abfea0ddde12d312cb67da70f845b46082646f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 14/42] fix: leave garbage collection as it was when there is
 nothing to train

---
 t5x/train.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index bda5820..f501c74 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -571,11 +571,6 @@ def train(
   # a batch that has not been trained on.
   first_batch_ready = train_iter.peek_async()
 
-  # If we take manual control of the garbage collector, we need to disable it
-  # before starting training.
-  if gc_period:
-    gc.disable()
-
   # ----------------------------------------------------------------------------
   # Main training loop
   # ----------------------------------------------------------------------------
@@ -606,6 +601,12 @@ def train(
     _cleanup()
     return host_step, trainer.train_state
 
+  # If we take manual control of the garbage collector, we need to disable it
+  # before starting training.
+  gc_was_enabled = gc.isenabled()
+  if gc_period:
+    gc.disable()
+
   logging.info('Starting main loop over steps %d-%d', first_step, total_steps)
 
   steps_per_epoch = min(steps_per_epoch, total_steps)
@@ -806,7 +807,7 @@ def train(
   # Wait until computations are done before exiting
   _cleanup()
 
-  if gc_period:
+  if gc_period and gc_was_enabled:
     # Reenable garbage collection to avoid affecting future code executed in
     # the same interpreter.
     gc.enable()
-- 
2.43.0


From 68f403fd6b6b9886194a09813db2815d0e3d1c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 15/42] fix: do not forget a request to stop when later actions
 have none

---
 t5x/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index f501c74..b6d530a 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -510,7 +510,7 @@ def train(
         eval_batch_iters[task] = ds
 
     eval_summaries = trainer.eval(eval_batch_iters)
-    trainer.stop_training = run_actions(
+    trainer.stop_training |= run_actions(
         trainer_lib.ActionMode.TRAIN_EVAL,  # pytype: disable=wrong-arg-types  # jax-ndarray
         actions,
         trainer.train_state,
@@ -527,7 +527,7 @@ def train(
     if not concurrent_metrics:
       # Ensure metrics are finished being computed.
       all_metrics_done = all_metrics.result() or {}
-      trainer.stop_training = run_actions(
+      trainer.stop_training |= run_actions(
           trainer_lib.ActionMode.INFER_EVAL,
           actions,
           trainer.train_state,
@@ -727,7 +727,7 @@ def train(
           # that the actions can be performed without special casing. The
           # only caveat is that train would need its own special `key`
           # given no `task` will be applied.
-          trainer.stop_training = run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
+          trainer.stop_training |= run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
               trainer_lib.ActionMode.TRAIN,
               actions,
               trainer.train_state,
-- 
2.43.0


From b843140f34b5acf4ab4cdafa85c37b4680ab1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 16/42] fix: save a checkpoint when training stops early
 between two epochs

---
 t5x/train.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/t5x/train.py b/t5x/train.py
index b6d530a..f644133 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -672,6 +672,16 @@ def train(
 
     # `stop_training` is requested, break out the main loop immediately.
     if trainer.stop_training:
+      if (
+          checkpoint_period
+          and checkpoint_manager
+          and (host_step - first_step) % checkpoint_period != 0
+      ):
+        logging.info('Saving a checkpoint before early stopping...')
+        checkpoint_manager.save(
+            trainer.train_state,
+            checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
+        )
       break
 
     logging.info('BEGIN Train loop.')
-- 
2.43.0


From 96976c3bdd542ce275a2c5bd24f54bfb85ac686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 17/42] fix: find the monitored metric in a run below another
 run

populate_metrics_for_steps settled on the first run whose name is a prefix
of the metric's. If that run's directory is the parent of the one that holds
the metric, the metric was never found and the best checkpoints were removed
as if they had none.
---
 t5x/checkpoints.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 37a8fa3..3bc62d5 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1428,11 +1428,10 @@ def populate_metrics_for_steps(
   metrics_by_step = {}
   for subdir in io_wrapper.GetLogdirSubdirectories(checkpoints_dir):
     rpath = os.path.relpath(subdir, checkpoints_dir)
-    # Skip runs that do not match user-specified metric.
-    if (
-        not metric_run
-        and not _try_fill_metric_run_and_tag_names(metric_name, (rpath,))
-    ) or metric_run != rpath:
+    # Skip runs that do not match user-specified metric. Several may: one run
+    # can be in a subdirectory of another, and only one has the tag.
+    metric_run, metric_tag = None, None
+    if not _try_fill_metric_run_and_tag_names(metric_name, (rpath,)):
       logging.info('Skipping events in %s', subdir)
       continue
 
-- 
2.43.0


From ebcd2daa868c7b174d9a01c9ca719306d0e80946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 18/42] fix: rank checkpoints whose metric is NaN below all
 others

Comparisons with NaN are false, so one NaN made the order of the other
checkpoints arbitrary and SaveBestCheckpointer could remove the best one.
---
 t5x/checkpoints.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 3bc62d5..af2b8c5 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1600,9 +1600,15 @@ class SaveBestCheckpointer(Checkpointer):
     # will make them candidate for removal. If no metrics are found this sorting
     # should preserve current order (oldest first).
     not_found_value = float('-inf' if self._metric_mode == 'max' else 'inf')
+
+    def _metric_value(step):
+      value = metrics_by_step.get(step, not_found_value)
+      # NaN has no order: it would break the sort and is never the best.
+      return not_found_value if np.isnan(value) else value
+
     existing_steps = sorted(
         existing_steps,
-        key=lambda step: metrics_by_step.get(step, not_found_value),
+        key=_metric_value,
         reverse=(self._metric_mode != 'max'),
     )
     existing_steps.append(latest_checkpoint)
-- 
2.43.0


From 7f91ad0f35b458c7b860b89183d7b36ada3fe21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 19/42] fix: let Orbax restore states with parameters no
 optimizer touches

---
 t5x/checkpoints.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index af2b8c5..76470b7 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2123,6 +2123,11 @@ def _construct_orbax_restoration_transforms(
   structure, _ = state_handler._get_internal_metadata(  # pylint: disable=protected-access
       state_subdir
   )
+  # There is nothing to read for `None`s, such as the state of a parameter that
+  # no optimizer touches.
+  structure = jax.tree.map(
+      lambda v: None if getattr(v, 'value_type', '') == 'None' else v, structure
+  )
   # Note: Ideally we would use Orbax's `transform_fn` to do this logic, but
   # the problem is we need to modify `restore_args`, and there isn't a great
   # way to do that within Orbax.
@@ -2141,6 +2146,12 @@ def _construct_orbax_restoration_transforms(
   restore_args = state_utils.intersect_state(
       restore_args, state_dict_to_restore
   )
+  restore_args = jax.tree.map(
+      lambda value, args: None if value is None else args,
+      state_dict_to_restore,
+      restore_args,
+      is_leaf=lambda x: x is None,
+  )
 
   def _transform_fn(
       item_: PyTree, structure_: PyTree, param_infos_: PyTree
-- 
2.43.0


From f279ad5beec384be60fd7dcfec357f626c109513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 20/42] fix: let Orbax restores cast only the target to
 restore_dtype

---
 t5x/checkpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 76470b7..f10c030 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2531,7 +2531,10 @@ class OrbaxCheckpointManagerInterface:
             arr,
             self._partitioner.mesh,
             axes=info.mesh_axes,
-            restore_dtype=self._restore_dtype,
+            # Only the target is cast.
+            restore_dtype=self._restore_dtype
+            if info.name.split('/')[0] == 'target'
+            else None,
         )
 
     state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From 394e878207af9926e71ee6bbcb00cd091a7f1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 21/42] fix: let Orbax saves cast the target to save_dtype

---
 t5x/checkpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index f10c030..a9c16b8 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2065,9 +2065,9 @@ def _construct_save_args(
     param_info: _OrbaxParamInfo, dtype: jnp.dtype
 ) -> ocp.SaveArgs:
   """Create SaveArgs for Orbax saving."""
-  if param_info.name.split('.')[0] != 'target':
+  if param_info.name.split('/')[0] != 'target':
     dtype = None
-  return ocp.SaveArgs(dtype=dtype)
+  return ocp.SaveArgs(dtype=None if dtype is None else jnp.dtype(dtype))
 
 
 def _construct_restore_args(
-- 
2.43.0


From 5365f41bf081dfefdec697a4839ca8342c4325a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 22/42] fix: restore the requested step of a T5X checkpoint
 with Orbax

---
 t5x/checkpoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index a9c16b8..433fa9c 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2470,6 +2470,7 @@ class OrbaxCheckpointManagerInterface:
             restore_dtype=self._restore_dtype,
         )
         return legacy_checkpointer.restore(
+            step=step if path is None else None,
             path=path,
             fallback_state=fallback_state,
             state_transformation_fns=state_transformation_fns,
-- 
2.43.0


From f274be0b44444ed0944a08db325ee0a46f43f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 23/42] fix: do not delete the checkpoint another job is saving
 when restoring

---
 t5x/checkpoints.py | 3 ++-
 t5x/utils.py       | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 433fa9c..42a90d5 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2269,6 +2269,7 @@ class OrbaxCheckpointManagerInterface:
       metric_name_to_monitor: Optional[str] = None,
       metric_mode: str = 'max',
       keep_checkpoints_without_metrics: bool = True,
+      cleanup_tmp_directories: bool = True,
   ):
     """Performs Orbax setup given standard arguments from T5X."""
     del checkpoint_steps
@@ -2310,7 +2311,7 @@ class OrbaxCheckpointManagerInterface:
         best_fn=best_fn if metric_name_to_monitor is not None else None,
         best_mode=metric_mode,
         keep_checkpoints_without_metrics=keep_checkpoints_without_metrics,
-        cleanup_tmp_directories=True,
+        cleanup_tmp_directories=cleanup_tmp_directories,
         step_prefix=get_checkpoint_prefix(),
         async_options=ocp.AsyncOptions(
             timeout_secs=600,
diff --git a/t5x/utils.py b/t5x/utils.py
index df49d51..b59d426 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1365,6 +1365,9 @@ def create_orbax_checkpoint_manager(
     if not extra_kwargs:
       extra_kwargs = _get_extra_kwargs(restore_cfg)
   ds_iter = ds_iter if should_save_restore_dataset else None
+  if save_cfg is None:
+    # Another job may be saving checkpoints in the same directory.
+    extra_kwargs['cleanup_tmp_directories'] = False
 
   return checkpoint_manager_cls(
       directory=model_dir,
-- 
2.43.0


From 93600ae22c10612e7075b5ac2fe6b81587ac4710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 24/42] fix: restore the dataset iterator on every host with
 Orbax

---
 t5x/checkpoints.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 42a90d5..c2b74ff 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2029,20 +2029,24 @@ class DatasetCheckpointHandler(ocp.CheckpointHandler):
     Returns:
       a tf.data.Iterator restored from `directory`.
     """
-    if self._should_write_dataset_ckpt:
-      if args is None:
-        raise ValueError('Must provide args to restore.')
-      item = args.item
-      if jax.process_count() > 1:
-        directory /= f'process_{jax.process_index()}-of-{jax.process_count()}'
-      if isinstance(item, tf.data.Iterator):
-        ckpt = tf.train.Checkpoint(ds=item)
-        ckpt.read(
-            os.fspath(directory / self._checkpoint_filename)
-        ).assert_consumed()
-      elif isinstance(item, clu.data.dataset_iterator.DatasetIterator):
-        item.load(os.fspath(directory / self._checkpoint_filename))
-      return item
+    if args is None:
+      raise ValueError('Must provide args to restore.')
+    item = args.item
+    if jax.process_count() > 1:
+      # The first host in the replica set saved the iterator for all of them.
+      for path in directory.glob(
+          f'process_*-of-{jax.process_count()}/{self._checkpoint_filename}*'
+      ):
+        directory = path.parent
+        break
+    if isinstance(item, tf.data.Iterator):
+      ckpt = tf.train.Checkpoint(ds=item)
+      ckpt.read(
+          os.fspath(directory / self._checkpoint_filename)
+      ).assert_consumed()
+    elif isinstance(item, clu.data.dataset_iterator.DatasetIterator):
+      item.load(os.fspath(directory / self._checkpoint_filename))
+    return item
 
 
 @ocp.args.register_with_handler(
@@ -2512,12 +2516,12 @@ class OrbaxCheckpointManagerInterface:
             legacy_transform_fn=transform_fn,
         ),
     }
-    if self._should_write_dataset_ckpt:
+    if self._dataset_iterator:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
     state_dict = restored[_STATE_KEY]
-    if self._should_write_dataset_ckpt:
+    if self._dataset_iterator:
       self._dataset_iterator = restored[_DATASET_KEY]
 
     # Merge restored state dict with fallback state to fill in any remaining
-- 
2.43.0


From 820f4c417fc4a33576fd6f0092ca0cacb297cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 25/42] fix: resume with use_orbax when nothing is to be saved

Without a save configuration, restore_dataset was None, which
create_orbax_checkpoint_manager cannot combine with a flag.
---
 t5x/interactive_model.py | 2 +-
 t5x/train.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index ea453d7..d115663 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -243,7 +243,7 @@ class InteractiveModel(abc.ABC):
             if self._save_checkpoint_cfg
             else checkpoints.Checkpointer,
             # Restore dataset state if it is being saved.
-            restore_dataset=(
+            restore_dataset=bool(
                 self._save_checkpoint_cfg
                 and self._save_checkpoint_cfg.save_dataset
             ),
diff --git a/t5x/train.py b/t5x/train.py
index f644133..f39db63 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -321,7 +321,7 @@ def train(
           if checkpoint_cfg.save
           else checkpoints.Checkpointer,
           # Restore dataset state if it is being saved.
-          restore_dataset=(
+          restore_dataset=bool(
               checkpoint_cfg.save and checkpoint_cfg.save.save_dataset
           ),
           state_transformation_fns=state_transforms_for_restore,
-- 
2.43.0


From 7bf3349a889c6d30357938064950f7719902b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 26/42] fix: finish saving before training returns without a
 step to do

A checkpoint that Orbax writes in the background was abandoned when the
total number of steps had already been reached.
---
 t5x/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index f39db63..7b74dca 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -578,6 +578,8 @@ def train(
 
   def _cleanup() -> None:
     """Ensures everything has been closed upon completion."""
+    if checkpoint_manager:
+      checkpoint_manager.close()
     trainer.close()
     if evaluator:
       evaluator.close()
@@ -811,8 +813,6 @@ def train(
     # Inference Evaluation (i.e., with decoding or scoring).
     if is_eval_epoch and evaluator is not None:
       _run_inference_eval()
-  if checkpoint_manager:
-    checkpoint_manager.close()
 
   # Wait until computations are done before exiting
   _cleanup()
-- 
2.43.0


From fd4133343a55efd1cc429723c483a9d80e6c52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 27/42] fix: read moved parameters under their own names from
 Orbax checkpoints

State transformations and assignment maps move the entries of the
checkpoint's structure, but the values were then read by their new
position, so that the move had no effect or the parameter was not found.
---
 t5x/checkpoints.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index c2b74ff..a079fcd 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2108,6 +2108,13 @@ def _construct_orbax_param_infos(
   return jax.tree_util.tree_map(_OrbaxParamInfo, param_names, mesh_axes)
 
 
+@dataclasses.dataclass
+class _NamedValueMetadata(ocp.metadata.tree.ValueMetadataEntry):
+  """Metadata of a value, with the name it has in the checkpoint."""
+
+  name: str = ''
+
+
 def _construct_orbax_restoration_transforms(
     state_handler: ocp.PyTreeCheckpointHandler,
     step: int,
@@ -2132,6 +2139,15 @@ def _construct_orbax_restoration_transforms(
   structure = jax.tree.map(
       lambda v: None if getattr(v, 'value_type', '') == 'None' else v, structure
   )
+  # Transformations may move values, which must still be found when they are
+  # read.
+  structure = jax.tree.map(
+      lambda v, name: _NamedValueMetadata(**vars(v), name=name)
+      if isinstance(v, ocp.metadata.tree.ValueMetadataEntry)
+      else v,
+      structure,
+      ocp.tree.get_param_names(structure, include_empty_nodes=False),
+  )
   # Note: Ideally we would use Orbax's `transform_fn` to do this logic, but
   # the problem is we need to modify `restore_args`, and there isn't a great
   # way to do that within Orbax.
@@ -2184,8 +2200,13 @@ def _construct_orbax_restoration_transforms(
     )
 
     def _modify_orbax_param_info(info, value):
-      if ocp.utils.leaf_is_placeholder(value):
+      if isinstance(value, _NamedValueMetadata):
+        name = value.name
+      elif ocp.utils.leaf_is_placeholder(value):
         name = ocp.utils.name_from_leaf_placeholder(value)
+      else:
+        name = None
+      if name is not None:
         return dataclasses.replace(
             info, name=name, path=directory_ / name, parent_dir=directory_
         )
-- 
2.43.0


From 48c9741ee5134c4c4ad493754cac3ff99c70dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 28/42] fix: do not restore the dataset with use_orbax unless
 asked to

Saving the dataset made every restore read it from the checkpoint as
well, which failed for pretrained checkpoints without one and otherwise
skipped input.
---
 t5x/checkpoints.py | 7 +++++--
 t5x/utils.py       | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index a079fcd..2131b28 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2295,6 +2295,7 @@ class OrbaxCheckpointManagerInterface:
       metric_mode: str = 'max',
       keep_checkpoints_without_metrics: bool = True,
       cleanup_tmp_directories: bool = True,
+      restore_dataset: bool = True,
   ):
     """Performs Orbax setup given standard arguments from T5X."""
     del checkpoint_steps
@@ -2306,6 +2307,7 @@ class OrbaxCheckpointManagerInterface:
     ):
       assert dataset_iterator._checkpoint
     self._dataset_iterator = dataset_iterator
+    self._restore_dataset = restore_dataset
     self._save_dtype = save_dtype
     self._restore_dtype = restore_dtype
     self._tmp_directory: Optional[epath.PathLike] = None
@@ -2537,12 +2539,13 @@ class OrbaxCheckpointManagerInterface:
             legacy_transform_fn=transform_fn,
         ),
     }
-    if self._dataset_iterator:
+    restore_dataset = self._dataset_iterator and self._restore_dataset
+    if restore_dataset:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
     state_dict = restored[_STATE_KEY]
-    if self._dataset_iterator:
+    if restore_dataset:
       self._dataset_iterator = restored[_DATASET_KEY]
 
     # Merge restored state dict with fallback state to fill in any remaining
diff --git a/t5x/utils.py b/t5x/utils.py
index b59d426..4828d6c 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1364,6 +1364,8 @@ def create_orbax_checkpoint_manager(
     # specified in save_cfg
     if not extra_kwargs:
       extra_kwargs = _get_extra_kwargs(restore_cfg)
+    if should_save_restore_dataset and not restore_cfg.restore_dataset:
+      extra_kwargs['restore_dataset'] = False
   ds_iter = ds_iter if should_save_restore_dataset else None
   if save_cfg is None:
     # Another job may be saving checkpoints in the same directory.
-- 
2.43.0


From 33a906809d6106174d6322d437e242c0dae6379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 29/42] fix: skip saving a step that Orbax has already saved

As with the legacy checkpointer. Otherwise a request to stop or a
preemption right after a checkpoint raised StepAlreadyExistsError.
---
 t5x/checkpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 2131b28..af57504 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2398,6 +2398,9 @@ class OrbaxCheckpointManagerInterface:
     step = _step_from_train_state(train_state)
     if not force and not self._manager.should_save(step):
       return False
+    if step in self._manager.all_steps():
+      logging.info('Skipping checkpoint save: step %d already exists.', step)
+      return False
 
     # TODO(b/216649487) Test save-time state_transformation_fns.
     state_dict, param_infos = _transform_state_and_infos(
-- 
2.43.0


From f604568299031a08b97017c1f1e6aa91849fa03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 30/42] fix: keep the best checkpoints with use_orbax and
 SaveBestCheckpointer

The class was tested for being an instance, so that its metric was never
considered and the most recent checkpoints were kept.
---
 t5x/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 4828d6c..fb67728 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1319,10 +1319,10 @@ def create_orbax_checkpoint_manager(
       # differently since it's a functools.partial.
       extra_kwargs = _get_default_args(cfg.checkpointer_cls)
     else:
-      if issubclass(
-          type(cfg.checkpointer_cls), checkpoints.SaveBestCheckpointer
+      if isinstance(cfg.checkpointer_cls, type) and issubclass(
+          cfg.checkpointer_cls, checkpoints.SaveBestCheckpointer
       ):
-        save_best_checkpointer = checkpoints.SaveBestCheckpointer(
+        save_best_checkpointer = cfg.checkpointer_cls(
             train_state=train_state,
             checkpoints_dir=model_dir,
             partitioner=partitioner,
-- 
2.43.0


From aa55722c5655d862c77149c4887ca374aa16b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 31/42] fix: never remove the latest Orbax checkpoint for its
 metric

A checkpoint was removed right after it was saved when those without a
metric are not kept, and could be later if its metric was the worst.
---
 t5x/checkpoints.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index af57504..8d279af 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2274,7 +2274,12 @@ class OrbaxCheckpointManagerInterface:
           if info.step in step_to_metric:
             metrics = {metric_name_to_monitor: step_to_metric[info.step]}
             info.metrics = metrics
-      return super()._get_old_steps_to_remove()
+      steps = super()._get_old_steps_to_remove()
+      if self._track_best:
+        # Training resumes from the latest checkpoint, whatever its metric.
+        latest_step = self.latest_step()
+        steps = [step for step in steps if step != latest_step]
+      return steps
 
   def __init__(
       self,
-- 
2.43.0


From 8eb7f0c80eee361e4bd13de114080dc5e3fc5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 32/42] fix: a NaN metric never makes an Orbax checkpoint the
 best one

---
 t5x/checkpoints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 8d279af..724fc00 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2272,8 +2272,11 @@ class OrbaxCheckpointManagerInterface:
         )
         for info in self._checkpoints:
           if info.step in step_to_metric:
-            metrics = {metric_name_to_monitor: step_to_metric[info.step]}
-            info.metrics = metrics
+            metric = step_to_metric[info.step]
+            if np.isnan(metric):
+              # NaN has no order: it would break the sort and is never the best.
+              metric = -np.inf if self._options.best_mode == 'max' else np.inf
+            info.metrics = {metric_name_to_monitor: metric}
       steps = super()._get_old_steps_to_remove()
       if self._track_best:
         # Training resumes from the latest checkpoint, whatever its metric.
-- 
2.43.0


From 71a776ad94b93544f30ac467f55ed43c058b1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 33/42] fix: an interactive session restores from its own
 directory

Without a checkpoint to start from, the session looks for one in the model
directory, but its checkpoint manager was created without a restore
configuration, so that every session after the first failed.
---
 t5x/interactive_model.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index d115663..e7c3e20 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -201,18 +201,6 @@ class InteractiveModel(abc.ABC):
         partitioner=self._partitioner,
     )
 
-    # Initialize checkpoint manager.
-    self._checkpoint_manager = utils.LegacyCheckpointManager(
-        save_cfg=self._save_checkpoint_cfg,
-        restore_cfg=self._restore_checkpoint_cfg,
-        train_state_shape=(
-            self._train_state_initializer.global_train_state_shape
-        ),
-        partitioner=self._partitioner,
-        ds_iter=None,
-        model_dir=self._output_dir,
-    )
-
     # --------------------------------------------------------------------------
     # Restore a model from a checkpoint or from scratch.
     # --------------------------------------------------------------------------
@@ -255,6 +243,17 @@ class InteractiveModel(abc.ABC):
     valid_restore_cfg, restore_paths = (
         utils.get_first_valid_restore_config_and_paths(restore_cfgs)
     )
+    # The checkpoint manager restores as the valid configuration says.
+    self._checkpoint_manager = utils.LegacyCheckpointManager(
+        save_cfg=self._save_checkpoint_cfg,
+        restore_cfg=valid_restore_cfg,
+        train_state_shape=(
+            self._train_state_initializer.global_train_state_shape
+        ),
+        partitioner=self._partitioner,
+        ds_iter=None,
+        model_dir=self._output_dir,
+    )
     self._train_state = self._checkpoint_manager.restore(
         restore_paths,
         valid_restore_cfg,
-- 
2.43.0


From 8dc61efe0a2323adf22b6580c399c37d2b6444a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 34/42] fix: hosts of an interactive session may all create the
 output directory

---
 t5x/interactive_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index e7c3e20..741f826 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -133,8 +133,7 @@ class InteractiveModel(abc.ABC):
     self._output_dir = output_dir
     # Remove double-slashes in directory path to avoid inconsistencies.
     self._output_dir = re.sub(r"(?<!gs:)([\/]{2,})", "/", self._output_dir)
-    if not os.path.exists(self._output_dir):
-      os.mkdir(self._output_dir)
+    os.makedirs(self._output_dir, exist_ok=True)
 
     # --------------------------------------------------------------------------
     # Initialize RNGs
-- 
2.43.0


From a83ce92eb4b663fc910c1ce719acb8c438c20d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 35/42] fix: interactive metrics on several hosts

The host that computes the metrics waits for the others, which had returned
without entering the barrier.
---
 t5x/interactive_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 741f826..1177063 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -612,6 +612,8 @@ class InteractiveModel(abc.ABC):
     """Computes the metrics specified in the metric_fns lists."""
     # Only compute metrics once
     if jax.process_index() != 0:
+      # Wait for the host that does.
+      utils.sync_global_devices("Completed.")
       return {}
 
     def compute_metrics_fn():
-- 
2.43.0


From 020dbd34ca778242062660030f6bbf884a8f0017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 36/42] fix: interactive metrics of scores only

---
 t5x/interactive_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 1177063..93f4b62 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -784,6 +784,7 @@ class InteractiveModel(abc.ABC):
 
     # Get predictions.
     predictions = []
+    aux_values = {}
     if predict_with_aux_metric_fns or predict_metric_fns:
       predictions, aux_values = self.infer_with_preprocessors(
           mode=InferenceType.PREDICT_WITH_AUX,
-- 
2.43.0


From f4fcf4d9250cff61894c00334921a8e334375aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 37/42] fix: interactive training loop repeats its batches
 often enough

With a number of steps that is no multiple of the number of batches, the loop
ran fewer steps than it was asked for.
---
 t5x/interactive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 93f4b62..258ad59 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -1016,7 +1016,7 @@ def _get_equal_length_batches(
   if isinstance(batches[0], Mapping):
     return [batches for i in range(length)]
   if len(batches) < length:
-    batches = batches * (length // len(batches))
+    batches = batches * -(-length // len(batches))
   # If multiple batches are provided, only use the first `length` batches.
   logging.warning(
       "We will only use the first %s batches provided for training.", length
-- 
2.43.0


From 3456261d1e7f6d816ef3e9ffcb321f2d3d8fad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 38/42] fix: all hosts restore from the checkpoint the first
 one has found

Hosts of a job that list a directory in which another job saves or removes
checkpoints could choose different ones.
---
 t5x/utils.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/t5x/utils.py b/t5x/utils.py
index fb67728..7e8176b 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -22,6 +22,7 @@ import dataclasses
 import functools
 import importlib
 import inspect
+import json
 import os
 import re
 import time
@@ -763,6 +764,18 @@ def sync_global_devices(name: str) -> None:
   multihost_utils.sync_global_devices(name)
 
 
+def broadcast_from_first_host(value: Any) -> Any:
+  """Returns the (JSON-serializable) value of the first host on all hosts."""
+  if jax.process_count() == 1:
+    return value
+  data = np.frombuffer(json.dumps(value).encode(), np.uint8)
+  size = int(multihost_utils.broadcast_one_to_all(np.int32(data.size)))
+  if jax.process_index() != 0:
+    data = np.zeros(size, np.uint8)
+  data = multihost_utils.broadcast_one_to_all(data)
+  return json.loads(np.asarray(data).tobytes().decode())
+
+
 def multihost_assert_equal(input_tree, fail_message: str = ''):
   """Verifies that all the hosts have the same tree of values."""
   # Internal mock TPU handling
@@ -925,6 +938,29 @@ def create_learning_rate_scheduler(
 
 def get_first_valid_restore_config_and_paths(
     restore_cfgs: Sequence[RestoreCheckpointConfig],
+) -> Tuple[Optional[RestoreCheckpointConfig], Sequence[str]]:
+  """Returns first valid restore_cfg and the paths to restore, on all hosts.
+
+  Another job may be saving or removing checkpoints, so that each host could
+  find different ones. All use what the first one has found.
+
+  Args:
+    restore_cfgs: a sequence of `RestoreCheckpointConfig` objects, see
+      `_find_first_valid_restore_config_and_paths`.
+
+  Returns:
+    Tuple of valid RestoreCheckpointConfig and a sequence of paths.
+  """
+  found, paths = _find_first_valid_restore_config_and_paths(restore_cfgs)
+  if jax.process_count() == 1:
+    return found, paths
+  index = [i for i, cfg in enumerate(restore_cfgs) if cfg is found]
+  index, paths = broadcast_from_first_host((index, [str(p) for p in paths]))
+  return restore_cfgs[index[0]] if index else None, paths
+
+
+def _find_first_valid_restore_config_and_paths(
+    restore_cfgs: Sequence[RestoreCheckpointConfig],
 ) -> Tuple[Optional[RestoreCheckpointConfig], Sequence[str]]:
   """Returns first valid restore_cfg and the paths to restore.
 
-- 
2.43.0


From a813fdfde3a70fe9d97e23ed4ce62ad893b21fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 39/42] fix: all hosts evaluate the checkpoints the first one
 has found

---
 t5x/eval.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index 511db25..39c8635 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -352,7 +352,11 @@ def evaluate(
         'Skipping evaluated checkpoints:\n %s',
         '\n '.join(_sorted_ckpt_paths(ckpt_paths & evaluated_ckpt_paths)),
     )
-    ckpt_paths = _sorted_ckpt_paths(ckpt_paths - evaluated_ckpt_paths)
+    # Another job may be saving or removing checkpoints: all hosts evaluate those
+    # that the first one has found.
+    ckpt_paths = utils.broadcast_from_first_host(
+        _sorted_ckpt_paths(ckpt_paths - evaluated_ckpt_paths)
+    )
     restore_cfg = restore_checkpoint_cfg
     restore_cfg.mode = 'specific'
 
-- 
2.43.0


From 05157cd848a34175a657208fee1875084d54119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 40/42] fix: checkpoints with a configured prefix are listed
 and restored

---
 t5x/checkpoints_utils.py | 14 ++++++++++----
 t5x/utils.py             |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 89163d9..1ccc87a 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -39,20 +39,26 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
-  glob_pattern = os.path.join(checkpoints_dir, 'checkpoint_*')
+  prefix = get_checkpoint_prefix()
+  glob_pattern = os.path.join(
+      checkpoints_dir, f'{prefix}_*'
+  )
   checkpoint_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
   return sorted(int(match.group(1)) for match in matches if match)
 
 
 def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
+  prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, 'checkpoint_*', f'{_TRAIN_DS_PREFIX}-*'
+      checkpoints_dir,
+      f'{prefix}_*',
+      f'{_TRAIN_DS_PREFIX}-*',
   )
   train_ds_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)/.*$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
   matches = [re_pattern.match(path) for path in train_ds_paths]
   return sorted(set(int(match.group(1)) for match in matches if match))
 
diff --git a/t5x/utils.py b/t5x/utils.py
index 7e8176b..34692c6 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -998,7 +998,7 @@ def _find_first_valid_restore_config_and_paths(
           ckpt_paths = tf_ckpt_state.all_model_checkpoint_paths
         else:
           ckpt_paths = [
-              os.path.join(ckpt_dir, f'checkpoint_{step}')
+              checkpoints.get_checkpoint_dir(ckpt_dir, step)
               for step in checkpoints.all_steps(ckpt_dir)
           ]
         if not ckpt_paths:
-- 
2.43.0


From 96a39bf3a8640117cfe526087351c17ddd63da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 41/42] fix: checkpoints and results in directories with glob
 characters in their name

---
 t5x/checkpoint_utils.py  |  5 ++++-
 t5x/checkpoints_utils.py |  7 ++++---
 t5x/infer.py             | 13 ++++++++++---
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/t5x/checkpoint_utils.py b/t5x/checkpoint_utils.py
index 03bcf91..ae50d40 100644
--- a/t5x/checkpoint_utils.py
+++ b/t5x/checkpoint_utils.py
@@ -19,6 +19,7 @@ removal process.
 """
 
 import enum
+import glob
 import os
 from typing import Any, BinaryIO, Optional, Union
 
@@ -101,7 +102,9 @@ def remove_checkpoint_dir(ckpt_dir: str) -> None:
 def remove_dataset_checkpoint(ckpt_dir: str, train_ds_prefix: str) -> None:
   """Removes dataset checkpoints if the checkpoint is not pinned."""
   if not is_pinned_checkpoint(ckpt_dir):
-    train_ds_pattern = os.path.join(ckpt_dir, train_ds_prefix + '*')
+    train_ds_pattern = os.path.join(
+        glob.escape(os.fspath(ckpt_dir)), train_ds_prefix + '*'
+    )
     logging.info('Deleting dataset checkpoint: %s', train_ds_pattern)
     for file in gfile.glob(train_ds_pattern):
       gfile.remove(file)
diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 1ccc87a..7ea083b 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -20,6 +20,7 @@ doesn't need the ability to actually read the checkpoints and can thus
 significantly reduce its binary size by not linking all the Jax libraries.
 """
 
+import glob
 import os
 import re
 from typing import Optional, Sequence, Tuple
@@ -41,7 +42,7 @@ def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
   prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, f'{prefix}_*'
+      glob.escape(checkpoints_dir), f'{glob.escape(prefix)}_*'
   )
   checkpoint_paths = gfile.glob(glob_pattern)
   re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
@@ -53,8 +54,8 @@ def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
   prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir,
-      f'{prefix}_*',
+      glob.escape(checkpoints_dir),
+      f'{glob.escape(prefix)}_*',
       f'{_TRAIN_DS_PREFIX}-*',
   )
   train_ds_paths = gfile.glob(glob_pattern)
diff --git a/t5x/infer.py b/t5x/infer.py
index 7cb63ea..5618099 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -22,6 +22,7 @@ r"""This script runs inference on a T5X-compatible model.
 
 import concurrent.futures
 import functools
+import glob
 import hashlib
 import json
 import os
@@ -180,7 +181,9 @@ def merge_chunks_to_file(
   logging.info('Merging chunk results.')
   # Merge chunks into single file.
   chunk_paths = sorted(
-      gfile.glob(os.path.join(tmp_dir, f'{output_fname}-chunk?????'))
+      gfile.glob(
+          os.path.join(glob.escape(tmp_dir), f'{output_fname}-chunk?????')
+      )
   )
 
   if not chunk_paths:
@@ -597,7 +600,9 @@ def infer(
       # The last one is used, where the writing of results left off.
       ckpt_chunks = [
           int(os.path.basename(path)[: -len('.ckpt.index')])
-          for path in gfile.glob(os.path.join(tmp_dir, '[0-9]*.ckpt.index'))
+          for path in gfile.glob(
+              os.path.join(glob.escape(tmp_dir), '[0-9]*.ckpt.index')
+          )
       ]
       ckpt_chunks = [
           chunk
@@ -648,7 +653,9 @@ def infer(
       if chunk_ckpt_path:
         # The checkpoint of this chunk is now the one to restart from, so that
         # the previous one can be deleted.
-        for fname in gfile.glob(os.path.join(tmp_dir, f'{chunk - 1}.ckpt.*')):
+        for fname in gfile.glob(
+            os.path.join(glob.escape(tmp_dir), f'{chunk - 1}.ckpt.*')
+        ):
           gfile.remove(fname)
 
     # Main Loop over "chunks".
-- 
2.43.0


From 981b9495f53708a076a4270a4304f385eeb24b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:11 +0000
Subject: [PATCH 42/42] fix: give each microbatch randomness of its own

---
 t5x/trainer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 5f3c87a..fa38fe7 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -777,7 +777,6 @@ def accumulate_grads_microbatched(
       }
 
     def metrics_and_grad(loop_cnt, dropout_rng, flax_mutables=None):
-      dropout_rng, sub_dropout_rng = jax.random.split(dropout_rng)
       mbatch = get_microbatch(batch, loop_cnt)
       # We need to annotate the microbatch sharding as we would a batch.
       mbatch = jax.tree_util.tree_map(
@@ -787,12 +786,10 @@ def accumulate_grads_microbatched(
           mbatch,
       )
       if flax_mutables is None:
-        (_, metrics), grad = grad_fn(
-            train_state.params, mbatch, sub_dropout_rng
-        )
+        (_, metrics), grad = grad_fn(train_state.params, mbatch, dropout_rng)
       else:
         (_, (metrics, flax_mutables)), grad = grad_fn(
-            train_state.params, mbatch, sub_dropout_rng, flax_mutables
+            train_state.params, mbatch, dropout_rng, flax_mutables
         )
       return metrics, grad, flax_mutables
 
@@ -811,8 +808,10 @@ def accumulate_grads_microbatched(
         Optional[FlaxMutables],
     ]:
       (dropout_rng, grad_accum, prev_metrics, flax_mutables) = state
+      # Each microbatch has randomness of its own.
+      dropout_rng, sub_dropout_rng = jax.random.split(dropout_rng)
       metrics, grad, flax_mutables = metrics_and_grad(
-          loop_cnt, dropout_rng, flax_mutables
+          loop_cnt, sub_dropout_rng, flax_mutables
       )
 
       grad_accum = jax.tree_util.tree_map(jnp.add, grad_accum, grad)
-- 
2.43.0

