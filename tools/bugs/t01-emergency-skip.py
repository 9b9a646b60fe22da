PROPERTY = 'T01'
NEEDS = 'a preemption in the middle of a window of several steps that began at a checkpointed step'
BREAKS = 'The emergency checkpoint is skipped if the step the window began at is saved already, though further steps were done since.'
EDITS = [
    ('t5x/train.py',
     '    except trainer_lib.PreemptionError as e:\n      if checkpoint_period and checkpoint_manager:\n',
     '    except trainer_lib.PreemptionError as e:\n      # Nothing to do if the checkpoint at the period has just been saved.\n      if (\n          checkpoint_period\n          and checkpoint_manager\n          and (host_step - first_step) % checkpoint_period\n      ):\n'),
]
DEMO = '''
import demo_lib as d, demo_train as t
it = t.It()
it.preempt_at = 5
try:
  t.train(d.TMP + '/a', 8, it=it, period=4, save_ds=True)
except t.tr.PreemptionError:
  pass
d.done(t.steps(d.TMP + '/a')[-1] == 5, t.steps(d.TMP + '/a'))
'''
