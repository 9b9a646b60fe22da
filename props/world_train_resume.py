"""Training that is interrupted and resumed equals training that is not."""

import os

import numpy as np

from dst import core
from dst.simfs import FaultPlan
from dst.simfs import with_nopreempt
from props import common as c
from props import world_train as wt
from t5x import checkpoints
from t5x import trainer as trainer_lib


def draw_cfg(ch):
  cfg = wt.draw_base(ch)
  cfg['data'] = ch.pick(['count', 'count', 'tf', 'const'], 'data')
  cfg['save'] = True
  cfg['save_ds'] = cfg['data'] != 'const' or ch.chance(300)
  cfg['period'] = ch.pick([1, 2, 3, 4], 'period')
  cfg['keep'] = ch.pick([None, 1, 2], 'keep')
  cfg['keep_ds'] = ch.pick([None, None, 1], 'keep-ds')
  cfg['stats_period'] = ch.pick([None, 1, 2, 3], 'stats')
  if ch.chance(300):
    cfg['ckpt_steps'] = sorted(ch.shuffle(list(range(1, 12)), 's')[:2])
  if ch.chance(250):
    cfg['eval_sets'] = wt.EVAL_SETS[:1]
    cfg['eval_period'] = cfg['period'] * ch.pick([1, 2], 'eval-mult')
    cfg['eval_first'] = ch.chance(300)
  return cfg


class World(wt.World):

  def __init__(self, run):
    cfg = draw_cfg(run.ch)
    run.note(**cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([0, 30, 200], 'preempt')
    self.s.monitors.append(self.monitor)
    self.data_delay = self.ch.pick([0, 0, 0.3], 'data-delay')
    self.at = {}

  def stepped(self, host, state):
    self.at[host.name] = self.at.get(host.name, 0) + 1

  def compare(self, got, step, when):
    if step not in self.states:
      self.s.fail('wrong-step', f'{when}: step {step} was never asked for')
    why = c.differs(got, self.states[step])
    if why:
      self.s.fail('diverged', f'{when}: step {step} differs from the same step '
                  f'of an uninterrupted run: {why}')

  def monitor(self, host, kind, path):
    if kind == 'rename':
      dst = path.split(' -> ')[1]
      if c.ckpt_step(dst) is not None:
        step = c.ckpt_step(dst)
        got = with_nopreempt(core.current(), lambda: wt.raw_read(
            os.path.join(self.dir, dst)))
        self.compare(got, step, f'checkpoint saved by {host.name}')
        self.run.probe('checkpoint')

  def patient(self, tasks):
    return bool(self.preempted)

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    rounds = ch.pick([1, 2, 0, 3], 'rounds')
    for k in range(rounds + 1):
      last = k == rounds
      s.fs.crash_at, s.fs.error_at = {}, {}
      self.preempt_at, self.preempted = None, set()
      kill = None
      if not last:
        what = ch.weighted([('crash', 5), ('kill', 4), ('preempt', 3),
                            ('error', 2)], 'what')
        who = ch.draw(cfg['hosts'], 'who')
        if what == 'crash':
          s.fs.crash_at = {who: 1 + ch.draw(60 if who == 0 else 12, 'crash-at')}
        elif what == 'kill':
          kill = (who, ch.draw(60, 'when') / 20)
        elif what == 'preempt' and cfg['data'] != 'tf':
          self.preempt_at = 1 + ch.draw(cfg['total'], 'preempt-at')
        elif what == 'error':
          s.fs.error_at = {who: [(1 + ch.draw(60, 'error-at'),
                                  ch.pick([1, 10 ** 6], 'error-count'),
                                  ch.pick(['enospc', 'eio'], 'error'))]}
      before = dict(s.faults)
      have = set(self.listed())
      self.at = {}
      results, bad, died = self.job(kill)
      hit = {x for x in s.faults if s.faults[x] != before.get(x)}
      injected = [t for t in bad if isinstance(
          t.exc, trainer_lib.PreemptionError)] if self.preempted else []
      others = [t for t in bad if t not in injected]
      if others and not hit & {'io-enospc', 'io-eio'}:
        self.run.unexpected(others[0].exc, others[0].tb, others[0].host.name)
      if self.preempted and injected and not others and not died:
        self.run.probe('preempted')
        start = max(have, default=0)
        done = start + max(self.at.values(), default=0)
        if done not in self.listed():
          s.fail('emergency-lost', f'preempted after step {done}, but the '
                 f'checkpoints are {self.listed()}')
      for r in results:
        step, state = r
        got = with_nopreempt(core.current(),
                             lambda: c.flat_np(state.state_dict()))
        if step != cfg['total'] or int(got['state/step']) != step:
          s.fail('wrong-end', f'training to {cfg["total"]} returned step '
                 f'{step} with the state of {int(got["state/step"])}')
        self.compare(got, step, 'the returned state')
      finished = len(results) == cfg['hosts']
      if finished:
        self.run.probe('finished')
        if k and have:
          self.run.probe('resumed')
        if cfg['total'] not in self.listed():
          s.fail('no-final', 'training finished without a checkpoint of its '
                 f'last step: {self.listed()}')
      elif last:
        if not others:
          s.fail('no-progress', 'without faults training did not finish')
      if last and not finished:
        s.fail('no-progress', 'without faults training did not finish')

  def listed(self):
    return wt.listed(self.dir)


def check_noise(run, cfg):
  """No two steps, and no two parts of a step, see the same random numbers."""
  noise = wt.NOISE[wt.ref_key(cfg)]
  steps = {}
  for step, (total, squares) in sorted(noise.items()):
    if total in steps:
      run.fail('same-randomness', f'steps {steps[total]} and {step} are given '
               'the same random numbers')
    steps[total] = step
    if cfg['microbatches'] and np.isclose(2 * squares, total ** 2, rtol=1e-5):
      run.fail('same-randomness', f'the microbatches of step {step} are given '
               'the same random numbers')


def world(run):
  w = World(run)
  w.states, w.losses = wt.reference(run, w.cfg)
  check_noise(run, w.cfg)
  with wt.Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
