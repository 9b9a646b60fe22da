PROPERTY = 'T05'
NEEDS = 'a window of training steps that begins before the background thread has summarised the previous one'
BREAKS = 'The duration timer is stopped in the background thread, where it races with the start of the timer of the next window, so durations and rates are those of other steps.'
EDITS = [
    ('t5x/trainer.py',
     '    # Must be called in the main thread to avoid race condition.\n    duration_future = self._duration_timer.stop(block_on=metrics)\n\n    def _summarize_and_write():\n      # For thread safety we first copy the metrics to host.\n      fetched_metrics = jax.tree_util.tree_map(jax.device_get, metrics)\n\n      duration = duration_future.result()\n',
     '    def _summarize_and_write():\n      # For thread safety we first copy the metrics to host.\n      fetched_metrics = jax.tree_util.tree_map(jax.device_get, metrics)\n\n      duration = self._duration_timer.stop(block_on=metrics).result()\n'),
]
DEMO = '''
import demo_lib as d, demo_train as t, time
class It(t.It):
  def on_next(self, *a):
    time.sleep(.2)
def slow(w, step, scalars):
  if w.name == 'train' and 'seconds' in scalars:
    time.sleep(.5)
t.Writer.slow = staticmethod(slow)
try:
  t.train(d.TMP + '/a', 8, it=It(), period=8, stats=1, save=False, relative_steps=8)
except Exception as e:
  d.done(False, repr(e))
got = [x[2]['seconds'] for x in t.WRITTEN if 'seconds' in x[2]]
d.done(len(got) == 8 and min(got) > .15, got)
'''
