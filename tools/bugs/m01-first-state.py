PROPERTY = 'M01'
NEEDS = 'a prediction or score, then a training step, then the same kind of request again in one session'
BREAKS = 'The cached inference function of a mode is bound to the state at its first use, so that later predictions and scores come from old parameters.'
EDITS = [('t5x/interactive_model.py', """      self._cached_infer_fns[infer_fn_key] = utils.get_infer_fn(
          infer_step=functools.partial(infer_step, **inference_kwargs),
          batch_size=self._batch_size,
          train_state_axes=self._train_state_initializer.train_state_axes,
          partitioner=self._partitioner,
      )
    infer_fn = functools.partial(
        self._cached_infer_fns[infer_fn_key],
        train_state=self._train_state,
    )
""", """      self._cached_infer_fns[infer_fn_key] = functools.partial(
          utils.get_infer_fn(
              infer_step=functools.partial(infer_step, **inference_kwargs),
              batch_size=self._batch_size,
              train_state_axes=self._train_state_initializer.train_state_axes,
              partitioner=self._partitioner,
          ),
          train_state=self._train_state,
      )
    infer_fn = self._cached_infer_fns[infer_fn_key]
""")]
DEMO = '''
import demo_lib as d
import demo_inter as i
m = i.session()
m.train_step(i.examples())
a = m.score(['ab'])
m.train_step(i.examples())
b = m.score(['ab'])
want = i.score_of(m.train_state.params, 'ab')
got = float(b[0][1])
d.done(abs(got - want) < 1e-3, f'score after the second step {got}, parameters say {want}')
'''
