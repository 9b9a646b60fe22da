"""Saves under I/O errors, stalls and a memory budget.

A save either completes or raises; it never hangs, never reports success for a
checkpoint that is not wholly there, and a retry succeeds once errors stop.
"""

import os

import numpy as np

from dst import core
from props import common as c
from props import world_rt

checkpoints = c.checkpoints


class World(world_rt.World):

  def __init__(self, run):
    super().__init__(run)
    self.cfg['ds'] = self.ch.chance(400)
    self.cfg['keep'] = self.ch.pick([None, 1, 2], 'keep')
    self.s.monitors.append(self.monitor)
    self.s.ts_observer = self.ts_observer
    self.attempted = {}
    self.lazy_fail = 0
    self.ds_pos = {}

  def limit(self):
    return self.cfg['gb'] * 10 ** 9

  def ts_observer(self, host, what, path, nbytes):
    live = host.env.setdefault('inflight', {})
    if what == 'end':
      if path in live:
        live[path] -= nbytes
      return
    live[path] = live.get(path, 0) + nbytes
    total = sum(live.values())
    big = host.env['largest'] = max(host.env.get('largest', 0), live[path])
    if len([p for p in live if live[p]]) > 1:
      self.run.probe('concurrent-array-writes')
    if total > max(self.limit(), big):
      self.s.fail('over-budget', f'{host.name}: {total} bytes of arrays being '
                  f'written at once, limit {self.limit():.0f}, largest array '
                  f'{big}')

  def monitor(self, host, kind, path):
    if kind == 'rename':
      dst = path.split(' -> ')[1]
      if c.ckpt_step(dst) is not None:
        self.check(c.ckpt_step(dst), 'at commit')

  def check(self, step, when):
    d = os.path.join(self.dir, c.ckpt_name(step))
    try:
      got = c.flat_np(checkpoints.load_t5x_checkpoint(d))
    except Exception as e:  # pylint: disable=broad-exception-caught
      self.s.fail('incomplete', f'{when}: checkpoint {step} is visible but '
                  f'unreadable: {type(e).__name__}: {str(e)[:200]}')
    why = c.differs(got, self.expected(step))
    if why:
      self.s.fail('incomplete', f'{when}: checkpoint {step} is visible but '
                  f'differs from the saved state: {why}')
    if self.cfg['ds']:
      n = self.cfg['hosts'] // self.rep
      for sh in range(n):
        p = os.path.join(d, f'train_ds-{sh:03}-of-{n:03}')
        if not os.path.exists(p) or (
            c.REAL_OPEN(p).read() != f'{sh}:{step + 1}\n'):
          self.s.fail('incomplete', f'{when}: checkpoint {step} has no usable '
                      f'iterator state of shard {sh}')

  def produce(self, x):
    if self.lazy_fail and self.ch.chance(self.lazy_fail, 'lazy-fail'):
      self.s.fault('producer-error')
      self.hit = True
      raise OSError(5, 'injected producer error')
    return super().produce(x)

  def visible(self, step):
    return os.path.isdir(os.path.join(self.dir, c.ckpt_name(step)))

  def writer(self, host):
    cfg = self.cfg
    n = cfg['hosts']
    rep = self.rep
    gm = c.fake_mesh(n // rep * self.k, rep, n // rep, rep, host.index)
    part = c.SimPartitioner(gm, c.axes_of(cfg, c.state_of(cfg, 0, 0)))
    ds = c.SimIter(host.index // rep) if cfg['ds'] else None
    template = c.state_of(cfg, 0, 't')
    if cfg['input'] == 'sharded':
      template = self.leafs(template)
    ck = checkpoints.Checkpointer(
        template, part, self.dir, ds, keep=cfg['keep'],
        save_dtype=cfg['save_dtype'])
    for step in self.steps:
      if step <= self.done:
        continue
      if ds is not None:
        ds.pos = step + 1
      for tries in range(4):
        before = dict(self.s.faults)
        t0 = self.s.now
        try:
          ck.save(self.leafs(c.state_of(cfg, step, 'w')),
                  concurrent_gb=cfg['gb'])
        except (core.SimKilled, core.SimStop, core.HarnessError):
          raise
        except Exception as e:  # pylint: disable=broad-exception-caught
          if not any(k.startswith('io-') or k == 'producer-error'
                     for k in self.s.faults):
            raise
          self.run.probe('save-raised')
          if self.visible(step):
            self.run.probe('raised-after-commit')
            if n == 1:
              break
          if n > 1 or tries == 3:
            raise
          if ds is not None:
            ds.pos = step + 1
          host.env['inflight'] = {}
          self.run.probe('retried-in-process')
          continue
        if not self.visible(step):
          self.s.fail('false-success', f'{host.name}: save({step}) returned '
                      'but the checkpoint is not there')
        self.run.probe('saved')
        break
      if host.index == 0:
        self.done = max(self.done, step)

  def supervise(self):
    ch = self.ch
    cfg = self.cfg
    s = self.s
    n = cfg['hosts']
    self.rep = 2 if n in (2, 4) and ch.chance(300) else 1
    self.k = ch.pick([1, 2], 'per-host')
    self.steps = ch.pick([[5], [0, 5], [3, 5, 9]], 'steps')
    self.save_fns = []
    self.done = -1
    s.fs.stall = ch.pick([0, 0, 20], 'stall')
    rounds = 1 + ch.draw(3, 'rounds')
    for k in range(rounds + 1):
      s.fs.error_at = {}
      self.lazy_fail = 0
      last = k == rounds
      if not last:
        for _ in range(1 + ch.draw(2, 'errors')):
          who = ch.draw(n, 'who')
          first = 1 + ch.draw(40 if who == 0 else 25, 'error-at')
          count = ch.pick([1, 3, 10 ** 6], 'error-count')
          s.fs.error_at.setdefault(who, []).append(
              (first, count, ch.pick(['enospc', 'eio', 'eunavailable'])))
        self.lazy_fail = ch.pick([0, 100], 'lazy-fail')
      t0 = s.now
      tasks = self.job(f'a{k}_', n, self.writer, expect_errors=not last)
      for t in tasks:
        if last and t.exc is not None:
          self.run.unexpected(t.exc, t.tb, t.host.name)
      for st in self.steps:
        if self.visible(st):
          self.check(st, f'after round {k}')
      if self.done == self.steps[-1]:
        break
    if not self.visible(self.steps[-1]):
      s.fail('no-progress', 'without faults the last step was not saved')


def world(run):
  w = World(run)
  sup = w.s.add_host(99, 'ctl')
  w.s.spawn(sup, w.supervise, 'supervisor')
  try:
    run.go(w.s)
  finally:
    w.restore_knobs()
