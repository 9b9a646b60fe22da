PROPERTY = 'C02'
NEEDS = 'a restore dtype and an optimizer state, restored lazily'
BREAKS = 'The lazy read path casts every section of the state to the restore dtype, not the parameters alone.'
EDITS = [('t5x/checkpoints.py', """      # ensure that only 'target' is cast
      restore_dtype = self.restore_dtype if k == 'target' else None
      state_dict[k]""", """      # ensure that only 'target' is cast
      restore_dtype = (
          self.restore_dtype if k == 'target' or lazy_parameters else None
      )
      state_dict[k]""")]
DEMO = '''
import demo_lib as d
import numpy as np, flax
import jax.numpy as jnp
from t5x import checkpoints
st = d.make_state(1, salt=0.1)
ck = checkpoints.Checkpointer(st, d.make_partitioner(on_devices=False), d.TMP + '/ck', restore_dtype=jnp.bfloat16)
ck.save(st)
got = ck.restore(step=1, lazy_parameters=True)
out = {}
for k, v in flax.traverse_util.flatten_dict(flax.core.unfreeze(got.state_dict())).items():
  v = v.get() if hasattr(v, 'get') else v
  out['/'.join(k)] = np.asarray(v)
want = d.flat(st)
bad = [k for k in want if k.startswith('state') and (out[k].dtype != want[k].dtype or not np.array_equal(out[k], want[k]))]
d.done(not bad, str(bad))
'''
