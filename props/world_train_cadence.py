"""Which steps run and which checkpoints are saved, also over restarts."""

import numpy as np

from dst import core
from dst.simfs import FaultPlan
from props import common as c
from props import world_train as wt


def draw_cfg(ch):
  cfg = wt.draw_base(ch)
  cfg['data'] = 'const'
  cfg['hosts'] = ch.pick([1, 1, 1, 2], 'hosts')
  cfg['replicas'] = 1
  cfg['mutables'], cfg['microbatches'] = False, None
  cfg['total'] = 2 + ch.draw(14, 'total')
  cfg['save'] = True
  unit = ch.pick([1, 2, 3, 4], 'unit')
  cfg['period'] = ch.pick([unit, unit, 2 * unit, None], 'period')
  cfg['keep'] = ch.pick([None, None, 1, 2, 3], 'keep')
  cfg['stats_period'] = ch.pick([None, 1, 2, 3, 5], 'stats')
  if cfg['period'] is None or ch.chance(600):
    n = 1 + ch.draw(4, 'n-steps')
    cfg['ckpt_steps'] = sorted(ch.shuffle(list(range(0, 18)), 'steps')[:n])
  if ch.chance(400):
    cfg['eval_sets'] = wt.EVAL_SETS[:1]
    cfg['eval_period'] = unit * ch.pick([1, 2], 'eval-mult')
  cfg['gc_period'] = unit * ch.pick([0, 0, 1, 2], 'gc-mult')
  periods = [p for p in (cfg['eval_period'], cfg['period'], cfg['gc_period'])
             if p]
  if periods and any(p % min(periods) for p in periods):
    cfg['eval_period'] = cfg['gc_period'] = 0  # refused
  cfg['concurrent'] = ch.chance(500)
  if ch.chance(250):
    cfg['relative'] = 1 + ch.draw(8, 'relative')
  return cfg


def last_step(cfg, first):
  return first + cfg['relative'] if cfg['relative'] else cfg['total']


def expected(cfg, first):
  """Steps whose checkpoint a job that starts at first saves, in order."""
  total, period = last_step(cfg, first), cfg['period']
  out = {x for x in cfg['ckpt_steps'] or () if first < x <= total}
  if period:
    out |= {first, total, *range(first, total, period)}
  return sorted(out)


class World(wt.World):

  def __init__(self, run):
    cfg = draw_cfg(run.ch)
    run.note(**cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([0, 30, 200], 'preempt')
    self.s.monitors.append(self.monitor)
    self.saved, self.at, self.first = [], {}, 0

  def initialised(self, host, state):
    pass

  def stepped(self, host, state):
    step = int(np.asarray(state.step))
    at = self.at.setdefault(host.name, self.first)
    if step != at + 1 or step > self.last:
      self.s.fail('wrong-step', f'{host.name} runs step {step} after {at} of '
                  f'{self.last}')
    self.at[host.name] = step

  def monitor(self, host, kind, path):
    if kind == 'rename':
      dst = path.split(' -> ')[1]
      if c.ckpt_step(dst) is not None:
        step = c.ckpt_step(dst)
        self.saved.append(step)
        want = self.want[:len(self.saved)]
        if self.saved != want:
          self.s.fail('wrong-save', f'training from step {self.first} saved '
                      f'checkpoints {self.saved}, expected {self.want}')

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    rounds = ch.pick([1, 0, 2], 'rounds')
    everything = []
    for k in range(rounds + 1):
      last = k == rounds
      s.fs.crash_at, s.fs.error_at = {}, {}
      kill = None
      if not last:
        who = ch.draw(cfg['hosts'], 'who')
        if ch.chance(500):
          s.fs.crash_at = {who: 1 + ch.draw(80 if who == 0 else 12, 'at')}
        else:
          kill = (who, ch.draw(100, 'when') / 20)
      have = self.listed()
      self.first = max(have, default=0)
      self.saved, self.at = [], {}
      self.want = [x for x in expected(cfg, self.first) if x not in have]
      self.last = last_step(cfg, self.first)
      if self.first >= self.last:
        self.want = []
      kw = {'relative_steps': cfg['relative']} if cfg['relative'] else {}
      results, bad, died = self.job(kill, gc_period=cfg['gc_period'], **kw)
      if bad:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      everything += [x for x in self.saved if x not in everything]
      if len(results) == cfg['hosts']:
        self.run.probe('finished')
        if self.first and self.first < self.last:
          self.run.probe('resumed')
        if cfg['ckpt_steps']:
          self.run.probe('listed-steps')
        if self.saved != self.want:
          s.fail('not-saved', f'training from step {self.first} saved '
                 f'checkpoints {self.saved}, expected {self.want}')
        if any(self.at.get(h.name, self.first) != self.last
               for h in self.hosts):
          s.fail('wrong-step', f'training to {self.last} ended at {self.at}')
        if any(step != self.last for step, _ in results):
          s.fail('wrong-step', f'training to {self.last} returned '
                 f'{[step for step, _ in results]}')
        if cfg['keep'] and self.saved:
          keep = sorted(everything)[-cfg['keep']:]
          if self.listed() != keep:
            s.fail('wrong-retention', f'{self.listed()} left of {everything}, '
                   f'expected {keep}')
      elif last:
        s.fail('no-progress', 'without faults training did not finish')

  def listed(self):
    return wt.listed(self.dir)


def world(run):
  w = World(run)
  with wt.Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
