PROPERTY = 'I01'
NEEDS = 'a crash in the middle of writing a chunk, in a job that does not checkpoint its input, and a restart'
BREAKS = 'A restart takes the existence of a chunk file for its completion, so a chunk that a crash left half written is kept and examples are missing.'
EDITS = [
    ('t5x/infer.py',
     '      if gfile.exists(chunk_path + \'.COMPLETED\') and not checkpoint_ds_iter:\n        assert gfile.exists(chunk_path), (\n            f\'Chunk file {chunk_path} should be present if \'\n            f\'{chunk_path + ".COMPLETED"} exists.\'\n        )\n',
     '      if gfile.exists(chunk_path) and not checkpoint_ds_iter:\n'),
]
DEMO = '''
import demo_lib as d, demo_infer as i, os
from t5x import infer
n = i.task(11)
out = d.TMP + '/o'
os.makedirs(out)
calls = []
def dying(path, inferences, *a, **k):
  calls.append(path)
  if len(calls) == 2:
    with open(path, 'w') as f:
      f.write('{"inputs": {"id_pretokenized": 4.0}, "score": 1}\\n')
    raise SystemExit('the process dies here')
  return infer.write_inferences_to_file(path, inferences, *a, **k)
try:
  i.run(out, n, write=dying, ckpt=False)
except BaseException as e:
  print('died', repr(e))
i.run(out, n, ckpt=False)
got = i.ids(out, n)
d.done(got == list(range(11)), got)
'''
