"""Garbage collection under manual control: exact, and handed back."""

import gc

import numpy as np

from dst import core
from dst.simfs import FaultPlan
from props import world_train as wt
from t5x import disable_gc_during_import as dg


def draw_cfg(ch):
  cfg = wt.draw_base(ch)
  cfg['hosts'] = ch.pick([1, 1, 2], 'hosts')
  cfg['replicas'] = 1
  cfg['data'] = 'const'
  cfg['mutables'], cfg['microbatches'] = False, None
  cfg['total'] = 2 + ch.draw(8, 'total')
  unit = ch.pick([1, 2, 3], 'unit')
  cfg['save'] = ch.chance(600)
  cfg['period'] = unit * ch.pick([1, 2], 'period') if cfg['save'] else None
  cfg['stats_period'] = ch.pick([None, 1, 2], 'stats')
  cfg['gc_period'] = unit * ch.pick([1, 2, 0, 3], 'gc-mult')
  periods = [p for p in (cfg['period'], cfg['gc_period']) if p]
  if periods and any(p % min(periods) for p in periods):
    cfg['gc_period'] = cfg['period']
  cfg['concurrent'] = ch.chance(500)
  return cfg


class World(wt.World):

  def __init__(self, run):
    ch = run.ch
    cfg = draw_cfg(ch)
    self.on = ch.chance(700)   # as the caller has it
    self.stop_at = 1 + ch.draw(8, 'stop') if ch.chance(300) else None
    run.note(on=self.on, stop_at=self.stop_at, **cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([0, 30, 200], 'preempt')
    self.first, self.at, self.got, self.before = 0, {}, {}, {}

  def main(self, host, kw):
    if not self.on:
      gc.disable()
    self.before[host.name] = gc.isenabled()
    return super().main(host, kw)

  def stepped(self, host, state):
    self.at[host.name] = int(np.asarray(state.step))
    want = self.before[host.name] and not self.cfg['gc_period']
    if gc.isenabled() != want:
      self.s.fail('not-controlled', f'automatic collection is '
                  f'{"on" if gc.isenabled() else "off"} on {host.name} in step '
                  f'{self.at[host.name]} with gc_period '
                  f'{self.cfg["gc_period"]}')

  def collected(self, host):
    self.got.setdefault(host.name, []).append(
        self.at.get(host.name, self.first))

  def returned(self, host, result):
    if gc.isenabled() != self.before[host.name]:
      self.s.fail('not-restored', 'automatic collection was '
                  f'{"on" if self.before[host.name] else "off"} on {host.name} '
                  f'before training and is not after it (steps {self.first} to '
                  f'{result[0]})')
    p = self.cfg['gc_period']
    end = result[0]
    want = []
    if p and end > self.first:
      want = [x for x in range(self.first + p, end + 1, p)]
      if want[-1:] != [end] and end == self.cfg['total']:
        want.append(end)
    got = self.got.get(host.name, [])
    if self.stop_at is not None:  # stopping may collect once more
      got = [x for x in got if x < end or x in want]
      got = got[:1] and [x for k, x in enumerate(got) if x not in got[:k]]
    if p and got != want:
      self.s.fail('wrong-collections', f'with gc_period {p}, {host.name} '
                  f'collected after steps {got}, expected {want} in steps '
                  f'{self.first} to {end}')
    if p:
      self.run.probe('controlled')

  def supervise(self):
    cfg, s = self.cfg, self.s
    actions = {}
    if self.stop_at is not None:
      actions = {'TRAIN': [wt.Action(self, 'TRAIN', [self.stop_at])]}
    for k in range(1 + self.ch.draw(2, 'again')):
      self.first = max(wt.listed(self.dir), default=0)
      self.at, self.got = {}, {}
      results, bad, died = self.job(actions=actions,
                                    gc_period=cfg['gc_period'])
      if bad:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      if len(results) != cfg['hosts']:
        s.fail('no-progress', 'a host did not finish')
      if self.first >= cfg['total']:
        self.run.probe('nothing-to-train')


def imports(run):
  """Scopes without collection, nested and on several threads."""
  ch, s = run.ch, run.sim()
  on = ch.chance(800)
  run.note(imports=True, on=on)
  s.fs = FaultPlan(ch)
  s.preempt = 200
  s.trace_lines, s.line_permille = dg.__file__, 500
  host = s.add_host(0, 'p')
  w = wt.World(run, dict(wt.BASE), s, run.scratch)

  def scope(depth, fail, alone):
    try:
      with dg.disabled_gc():
        if alone and gc.isenabled():
          s.fail('not-controlled', 'automatic collection is on in the scope')
        s.yield_point('import')
        if depth:
          scope(depth - 1, fail, alone)
        if fail:
          raise ImportError('injected')
    except ImportError:
      if not fail:
        raise

  def main():
    if not on:
      gc.disable()
    n = 1 + ch.draw(3, 'threads')
    plans = [(ch.draw(3, 'depth'), ch.chance(300)) for _ in range(n)]
    tasks = [s.spawn(host, lambda p=p: scope(*p, n == 1), f't{k}')
             for k, p in enumerate(plans)]
    for t in tasks:
      s.join(t)
    if gc.isenabled() != on:
      s.fail('not-restored', 'automatic collection is not as it was before '
             f'{n} threads imported')
    run.probe('imported')

  with wt.Patched(w):
    s.spawn(host, main, 'main')
    run.go(s)


def world(run):
  if run.ch.chance(200):
    return imports(run)
  w = World(run)
  with wt.Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
