"""Requests to stop training: honoured at once, by all hosts, never lost."""

import functools
import math

import clu.values
import numpy as np

from dst import core
from dst.simfs import FaultPlan
from dst.simfs import with_nopreempt
from props import common as c
from props import world_train as wt
from t5x import trainer as trainer_lib

MODES = ('TRAIN', 'TRAIN_EVAL', 'INFER_EVAL')


def draw_cfg(ch):
  cfg = wt.draw_base(ch)
  cfg['hosts'] = ch.pick([1, 2, 2, 3], 'hosts')
  cfg['replicas'] = cfg['hosts'] if cfg['hosts'] == 3 else 1
  cfg['data'] = 'count'
  cfg['mutables'], cfg['microbatches'] = False, None
  cfg['total'] = 3 + ch.draw(8, 'total')
  unit = ch.pick([1, 2, 3], 'unit')
  cfg['save'] = ch.chance(600)
  cfg['period'] = unit * ch.pick([1, 2], 'period') if cfg['save'] else None
  if cfg['save'] and ch.chance(300):
    cfg['ckpt_steps'] = sorted(ch.shuffle(list(range(1, 10)), 'steps')[:2])
  cfg['stats_period'] = ch.pick([None, 1, 2], 'stats')
  cfg['eval_sets'] = wt.EVAL_SETS[:ch.pick([1, 2, 0], 'sets')]
  cfg['infer_eval'] = ch.chance(500)
  if cfg['eval_sets'] or cfg['infer_eval']:
    cfg['eval_period'] = unit * ch.pick([1, 2], 'eval-mult')
    cfg['eval_first'] = ch.chance(300)
  cfg['concurrent'] = ch.chance(300)
  if ch.chance(200):
    cfg['nan_at'] = ch.pick([2, 0, 4], 'nan-at')
  return cfg


def windows(cfg, first=0):
  """The steps after which the loop looks at the training metrics."""
  periods = [p for p in (cfg['eval_period'], cfg['period']) if p]
  epoch = min(min(periods) if periods else cfg['total'], cfg['total'])
  stats = cfg['stats_period'] or (min(periods) if periods else cfg['total'])
  listed = [x for x in cfg['ckpt_steps'] or ()
            if not cfg['period'] or (x - first) % cfg['period']]
  out, at = [], first
  while at < cfg['total']:
    end = min(first + ((at - first) // epoch + 1) * epoch, cfg['total'])
    at = min([at + stats, end] + [x for x in listed if x > at])
    out.append(at)
  return out


def evaluations(cfg, wins, first=0):
  """The steps at which evaluations are due."""
  evals = [x for x in wins if cfg['eval_period'] and (
      (x - first) % cfg['eval_period'] == 0 or x == cfg['total'])]
  return ([first] if cfg['eval_first'] else []) + evals


class Resumed(wt.World):
  """A job under test that may continue what an earlier one has trained."""

  first = 0
  prelude = False

  def draw_first(self):
    if self.ch.chance(350):
      self.first = 1 + self.ch.draw(min(5, self.cfg['total'] - 1), 'first')
      self.run.note(first=self.first)

  def get_dataset(self, cfg, shard, shards, converter):
    it = super().get_dataset(cfg, shard, shards, converter)
    if not self.prelude:
      it.pos = self.first
    return it

  def begin(self):
    if not self.first:
      return
    cfg, self.prelude = self.cfg, True
    self.cfg = dict(cfg, total=self.first, save=True, period=self.first,
                    ckpt_steps=None, keep=None, eval_period=0, eval_sets=(),
                    infer_eval=False, eval_first=False, concurrent=True)
    results, bad, _ = self.job()
    if bad:
      self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
    if len(results) != cfg['hosts'] or self.first not in wt.listed(self.dir):
      self.s.fail('no-progress', 'the earlier job did not finish')
    self.cfg, self.prelude = cfg, False
    self.writers.clear()
    self.run.probe('resumed')


class Asking(wt.Action):
  """One of several actions of a kind."""

  def __init__(self, world, mode, stops, index):
    super().__init__(world, mode, stops)
    self.index = index
    self.calls = []

  def run(self, train_state, metrics_by_task):
    self.calls.append(int(np.asarray(train_state.step)))
    if self.index:
      stop = self.calls[-1] in self.stops
      self.world.request(self.calls[-1], stop, self.mode)
      return stop
    return super().run(train_state, metrics_by_task)


class World(Resumed):

  def __init__(self, run):
    ch = run.ch
    cfg = draw_cfg(ch)
    plan = {m: [sorted(ch.shuffle(list(range(0, cfg['total'] + 1)), 'p')[
        :ch.pick([0, 1, 2], 'n')]) for _ in range(ch.pick([1, 2], 'actions'))]
            for m in MODES}
    run.note(plan=plan, **cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.draw_first()
    self.plan = plan
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([0, 30, 200], 'preempt')
    self.data_delay = self.ch.pick([0, 0, 0.3], 'data-delay')
    self.calls = []   # what ran on host 0
    self.asked = None  # step of the first request
    self.ran = {}

  def stepped(self, host, state):
    step = int(np.asarray(state.step))
    if self.prelude:
      return
    if self.asked is not None and step > self.asked:
      self.s.fail('not-stopped', f'{host.name} runs step {step} though to stop '
                  f'was requested at step {self.asked}')
    self.ran[host.name] = step

  def acted(self, mode, step, stop, metrics):
    host = core.current().host
    if host.index != 0:
      self.s.fail('wrong-host', f'{mode} action ran on {host.name}')
    if mode == 'INFER_EVAL':
      ok = metrics == {'task': {'v': 1.0}}
    else:
      want = (['train'] if mode == 'TRAIN'
              else [n for n, _ in self.cfg['eval_sets']])
      ok = sorted(metrics) == sorted(want)
      for name, m in metrics.items():
        if not ok:
          break
        v = m.get('loss')
        value = getattr(v, 'value', v)
        ref = (self.train_loss(step) if mode == 'TRAIN' else
               self.losses[f'training_eval/{name}', step])
        ok = value is not None and np.allclose(
            np.asarray(value), ref, rtol=1e-5, equal_nan=True)
    if not ok:
      self.s.fail('wrong-metrics', f'{mode} action at step {step} was given '
                  f'{metrics}')
    self.calls.append((mode, step))
    self.request(step, stop, mode)

  def request(self, step, stop, mode):
    if stop and self.asked is None:
      self.asked = step
      self.run.probe('asked-' + mode)

  def train_loss(self, step):
    k = self.wins.index(step)
    start = self.wins[k - 1] if k else self.first
    return np.mean([self.losses[x] for x in range(start + 1, step + 1)],
                   dtype=np.float64)

  def supervise(self):
    cfg, s = self.cfg, self.s
    self.begin()
    self.wins = windows(cfg, self.first)
    actions = {m: [Asking(self, m, p, i) for i, p in enumerate(self.plan[m])]
               for m in MODES}
    asking = {m: list(actions[m]) for m in MODES}
    nan = {}
    if cfg['nan_at'] is not None:
      world = self

      class Nan(trainer_lib.TerminateOnNanAction):

        def run(self, train_state, metrics_by_task):
          got = super().run(train_state, metrics_by_task)
          step = int(np.asarray(train_state.step))
          if bool(got) != (not math.isfinite(world.train_loss(step))):
            s.fail('wrong-nan', f'at step {step} with loss '
                   f'{world.train_loss(step)} the action said {got}')
          if got and world.asked is None:
            world.asked = step
            world.run.probe('asked-nan')
          return got

      actions['TRAIN'].insert(self.ch.draw(2, 'nan-place'), Nan('train'))
    results, bad, died = self.job(None, actions=actions)
    if bad:
      self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
    if len(results) != cfg['hosts']:
      s.fail('no-progress', 'a host did not finish')
    end = self.asked if self.asked is not None else cfg['total']
    for step, state in results:
      if step != end or int(np.asarray(state.step)) != end:
        s.fail('wrong-end', f'training returned step {step} with the state of '
               f'{int(np.asarray(state.step))}, requested to stop at '
               f'{self.asked} of {cfg["total"]}')
    if any(self.ran.get(h.name, self.first) != end for h in self.hosts):
      s.fail('wrong-end', f'hosts ended at {self.ran}, expected {end}')
    if cfg['period'] and end not in wt.listed(self.dir):
      s.fail('not-saved', f'training stopped at step {end} and left the '
             f'checkpoints {wt.listed(self.dir)}')
    # every action ran, once, wherever its metrics were due
    evals = evaluations(cfg, self.wins, self.first)
    due = {'TRAIN': [] if cfg['concurrent'] else self.wins,
           'TRAIN_EVAL': evals if cfg['eval_sets'] else [],
           'INFER_EVAL': evals if cfg['infer_eval'] and not cfg['concurrent']
                         else []}
    for m in MODES:
      got = [x for mode, x in self.calls if mode == m]
      want = [x for x in due[m] if x <= end]
      if [x for x in got if x < end] != [x for x in want if x < end] or (
          len(got) != len(set(got)) or not set(got) <= set(
              want) | ({end} if m != 'TRAIN' else set())):
        s.fail('wrong-actions', f'{m} actions ran at {got}, expected {want}')
      for a in asking[m]:
        if a.calls != got:
          s.fail('wrong-actions', f'of the {m} actions one ran at {got}, '
                 f'another at {a.calls}')
    self.run.probe('finished')
    if self.asked is not None and self.asked < cfg['total']:
      self.run.probe('stopped-early')


def world(run):
  w = World(run)
  w.states, w.losses = wt.reference(run, w.cfg)
  with wt.Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
