PROPERTY = 'M01'
NEEDS = 'a request of more examples than the batch size whose auxiliary values are used'
BREAKS = 'The auxiliary values of the batches of a request are put together in the wrong order, so that they belong to other examples.'
EDITS = [('t5x/interactive_model.py', """      if not all_aux_values:
        all_aux_values = aux_values
      else:
        for key, values in aux_values.items():
          all_aux_values[key] += values
""", """      if set(all_aux_values) != set(aux_values):
        all_aux_values = {key: [] for key in aux_values}
      for key, values in aux_values.items():
        all_aux_values[key] = values + all_aux_values[key]
""")]
DEMO = '''
import demo_lib as d
import demo_inter as i
m = i.session()
ws = ['ab', 'cd', 'ef', 'gh', 'ij', 'kl']
out, aux = m.predict_with_aux(ws)
want = [i.score_of(m.train_state.params, w) for w in ws]
got = [float(x) for x in aux['scores']]
ok = len(got) == len(want) and all(abs(x - y) < 1e-3 for x, y in zip(got, want))
d.done(ok, f'scores {got}, expected {want}')
'''
