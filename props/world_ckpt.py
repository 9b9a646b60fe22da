"""The checkpointing world: a simulated SPMD job that saves, crashes, restarts.

`world` is parameterised by what to stress; C01..C07 use it with different
emphasis and all of its oracles are live in every run.
"""

import os

import ml_dtypes
import numpy as np

from dst import core
from dst import simhosts
from dst.simfs import FaultPlan
from props import common as c

checkpoints = c.checkpoints
checkpoint_utils = c.checkpoint_utils

BF16 = ml_dtypes.bfloat16


def draw_cfg(ch, focus):
  cfg = {}
  cfg['hosts'] = ch.pick({'hosts': [1, 2, 3, 4], 'ds': [1, 2, 4, 3]}.get(
      focus, [1, 2, 1, 3]), 'hosts')
  cfg['leaves'] = ch.pick([['w', 'b'], ['w'], ['w', 'b', 'emb', 's'],
                           ['emb', 's']], 'leaves')
  cfg['moments'] = ch.chance(500)
  cfg['mutables'] = ch.chance(300)
  cfg['dtype'] = ch.pick([np.float32, BF16], 'dtype')
  cfg['save_dtype'] = ch.pick([np.float32, BF16], 'save_dtype')
  cfg['unpart'] = []
  if ch.chance(500):
    cfg['unpart'] = ch.subset(
        [f'target/p/{n}' for n in cfg['leaves']]
        + [f'state/param_states/{n}/m' for n in cfg['leaves']], 300)
  cfg['axis0'] = ch.pick(['data', None, 'model'], 'axis0')
  cfg['keep'] = ch.pick([None, 1, 2, 3] if focus != 'retention' else
                        [1, 2, 3, None, 1, 2], 'keep')
  cfg['keep_ds'] = ch.pick([None, 1, 2], 'keep_ds') if (
      focus in ('ds', 'retention', 'hosts')) else None
  cfg['ds'] = focus == 'ds' or ch.chance(500)
  cfg['replicas'] = 1
  cfg['interleave'] = False
  if cfg['hosts'] in (2, 4) and ch.chance(500 if focus == 'ds' else 300):
    cfg['replicas'] = 2  # two hosts feed the same data shard
    cfg['interleave'] = ch.chance(400)
  cfg['per_host'] = ch.pick([1, 2], 'devices-per-host')
  cfg['saves'] = 2 + ch.draw(4, 'saves')
  cfg['zero'] = ch.chance(400)  # the first checkpoint is at step 0
  cfg['jax_arrays'] = cfg['hosts'] == 1 and ch.chance(300)
  cfg['on_devices'] = not ch.chance(300)
  cfg['readers'] = 1 if ch.chance(400) else 0
  cfg.update(c.draw_place(ch, odd=True))
  return cfg


class World:

  def __init__(self, run, cfg, focus):
    self.run = run
    self.ch = run.ch
    self.cfg = cfg
    self.focus = focus
    c.use_prefix(cfg['prefix'])
    self.dir = os.path.join(run.scratch, cfg['dirname'])
    os.makedirs(self.dir)
    self.s = run.sim()
    self.s.fs = FaultPlan(run.ch)
    self.s.preempt = run.ch.pick([0, 30, 150, 400], 'preempt')
    self.s.ts_latency = run.ch.pick([0, 50], 'ts-latency')
    # The reference model.
    self.attempted = {}  # step -> {salt: expected content}
    self.ds_attempt = {}  # (step, salt) -> {shard: pos}
    self.committed = {}  # step -> salt, for saves that returned on host 0
    self.inflight = {}  # host index -> (step, salt)
    self.pinned = set()
    self.pin_doubt = None
    self.deleting = set()  # steps whose removal began
    self.removable = set()  # steps retention allowed to be removed
    self.incarnation = 0
    self.s.monitors.append(self.monitor)
    self.writes_done = {}

  # ---- expectations
  def content(self, step, salt):
    return c.on_disk(self.cfg, c.state_of(self.cfg, step, salt))

  def state(self, step, salt):
    st = c.state_of(self.cfg, step, salt)
    if self.cfg['jax_arrays']:
      import jax
      st = jax.tree_util.tree_map(jax.numpy.asarray, st)
    return st

  def partitioner(self, host):
    n = self.cfg['hosts']
    rep = self.cfg['replicas']
    k = self.cfg['per_host']
    gm = c.fake_mesh(n // rep * k, rep, n // rep, rep, host.index,
                     interleave=self.cfg['interleave'])
    return c.SimPartitioner(
        gm, c.axes_of(self.cfg, c.state_of(self.cfg, 0, 0)),
        on_devices=self.cfg['on_devices'])

  def checkpointer(self, host, ds):
    return checkpoints.Checkpointer(
        self.state(0, 'template'), self.partitioner(host), self.dir, ds,
        keep=self.cfg['keep'], save_dtype=self.cfg['save_dtype'],
        keep_dataset_checkpoints=self.cfg['keep_ds'])

  # ---- live invariants
  def monitor(self, host, kind, path):
    if kind == 'rename':
      src, dst = path.split(' -> ')
      gone = self.step_of(os.path.basename(src))
      if gone is not None and os.path.dirname(src) == self.dir:
        self.note_deletion(gone)
      step = self.step_of(dst)
      if step is None:
        return
      self.run.probe('commit')
      # Visible from now on: every host's writes must already be durable.
      for h in self.group_hosts:
        n = sum(self.concerns(w) for w in h.pending.values())
        if n:
          self.s.fail('early-commit',
                      f'checkpoint {step} became visible while {h.name} still '
                      f'had {n} unfinished writes')
        if h.index not in self.entered.get(step, set()):
          self.s.fail('early-commit', f'checkpoint {step} became visible '
                      f'before {h.name} began to save it')
      self.check_visible(step, 'at commit')
    elif kind in ('unlink', 'rmdir') and c.in_ckpt(path):
      rel = os.path.relpath(path, self.dir).split('/')
      step = self.step_of(rel[0])
      if step is not None and not (len(rel) > 1 and (
          rel[1].startswith('train_ds') or rel[1] == 'PINNED')):
        self.note_deletion(step)

  def concerns(self, write):
    return True

  def note_deletion(self, step):
    if step in self.deleting:
      return
    self.deleting.add(step)
    self.run.probe('delete')
    newest = sorted(set(self.disk_steps()) | {step})
    if step in self.pinned:
      self.s.fail('pinned-deleted', f'pinned checkpoint {step} deleted')
    if step == newest[-1]:
      self.s.fail('newest-deleted',
                  f'the newest checkpoint {step} deleted of {newest}')
    if not self.cfg['keep']:
      self.s.fail('deleted-without-keep', f'checkpoint {step} deleted')

  def step_of(self, name):
    return c.ckpt_step(name)

  def disk_steps(self):
    out = [self.step_of(n) for n in os.listdir(self.dir)]
    return sorted(x for x in out if x is not None)

  def check_visible(self, step, when):
    """The files of checkpoint `step`, read without t5x's restore code path."""
    d = os.path.join(self.dir, c.ckpt_name(step))
    if step not in self.attempted:
      self.s.fail('phantom', f'{when}: checkpoint {step} was never saved')
    try:
      # load_t5x_checkpoint is the documented stand-alone reader.
      got = c.flat_np(checkpoints.load_t5x_checkpoint(d))
    except Exception as e:  # pylint: disable=broad-exception-caught
      self.s.fail('unreadable', f'{when}: listed checkpoint {step} cannot be '
                  f'read: {type(e).__name__}: {str(e)[:200]}')
    why = None
    for salt, want in self.attempted[step].items():
      why = c.differs(got, want)
      if why is None:
        break
    else:
      self.s.fail('wrong-content', f'{when}: checkpoint {step} is not the '
                  f'state any save was given: {why}')
    if self.cfg['ds']:
      shards = self.ds_attempt[(step, salt)]
      for sh, pos in shards.items():
        p = os.path.join(d, f'train_ds-{sh:03}-of-{self.n_shards:03}')
        if when == 'at commit':
          if not os.path.exists(p):
            self.s.fail('missing-dataset', f'{when}: checkpoint {step} has no '
                        f'iterator state of data shard {sh}')
          with c.REAL_OPEN(p) as f:
            if f.read() != f'{sh}:{pos}\n':
              self.s.fail('dataset-position', f'{when}: checkpoint {step} has '
                          f'a wrong iterator state of shard {sh}')
    return salt

  @property
  def n_shards(self):
    return self.cfg['hosts'] // self.cfg['replicas']

  def before_save(self, host, step):
    pass

  # ---- the job
  def host_main(self, host, plan):
    cfg = self.cfg
    shard = (host.index % self.n_shards if cfg['interleave']
             else host.index // cfg['replicas'])
    ds = c.SimIter(shard) if cfg['ds'] else None
    ck = self.checkpointer(host, ds)
    start = ck.latest_step()
    disk = self.start_steps
    if start != (disk[-1] if disk else None):
      self.s.fail('latest', f'latest_step() is {start}, disk has {disk}')
    step = None
    if start is not None:
      use_latest = self.use_latest
      want_ds = cfg['ds'] and self.ds_ok.get(start)
      if cfg['ds'] and not want_ds:
        return  # iterator state was garbage collected; nothing to check
      st = ck.restore() if use_latest else ck.restore(step=start)
      got = c.flat_np(st.state_dict())
      if int(got['state/step']) != start:
        self.s.fail('restored-step', f'{got["state/step"]} != {start}')
      for salt, want in self.attempted[start].items():
        why = c.differs(got, want)
        if why is None:
          break
      else:
        self.s.fail('wrong-restore', f'restore of checkpoint {start}: {why}')
      if ds is not None and ds.pos != self.ds_attempt[(start, salt)][shard]:
        self.s.fail('dataset-resume', f'{host.name}: iterator resumed at '
                    f'{ds.pos}, saved {self.ds_attempt[(start, salt)][shard]}')
      self.run.probe('restore')
      step = start
    for k, (inc, pin) in enumerate(plan):
      step = inc if step is None else step + max(1, inc)
      salt = self.incarnation
      if ds is not None:
        for _ in range(1 + (step + salt) % 3):
          next(ds)
        self.ds_attempt.setdefault((step, salt), {})[shard] = ds.pos
      self.attempted.setdefault(step, {}).setdefault(
          salt, self.content(step, salt))
      self.entered.setdefault(step, set()).add(host.index)
      self.before_save(host, step)
      ck.save(self.state(step, salt))
      if host.index == 0:
        self.committed[step] = salt
        self.run.probe('saved')
        steps = self.disk_steps()
        self.after_save(ck, step, steps)
        for st2 in pin:
          if steps:
            target = steps[st2 % len(steps)]
            d = checkpoints.get_checkpoint_dir(self.dir, target)
            self.pin_doubt = target
            if target in self.pinned:
              self.pinned.discard(target)
              checkpoint_utils.unpin_checkpoint(d)
            else:
              checkpoint_utils.pin_checkpoint(d)
              self.pinned.add(target)
              self.run.probe('pin')
            self.pin_doubt = None
      if step not in self.disk_steps():
        self.s.fail('save-not-visible',
                    f'{host.name}: save of {step} returned, not on disk')

  def after_save(self, ck, step, steps):
    """Retention: the newest `keep` and the pinned ones, and nothing else."""
    before = set(self.visible_before) | {step}
    keep = self.cfg['keep']
    want = set(before)
    if keep:
      want = set(sorted(before)[-keep:]) | (self.pinned & before)
    if set(steps) != want:
      self.s.fail('retention', f'after saving {step} with keep={keep}, pinned='
                  f'{sorted(self.pinned)}: kept {steps}, expected '
                  f'{sorted(want)}')
    if ck.all_steps() != steps or ck.latest_step() != steps[-1]:
      self.s.fail('listing', f'all_steps() {ck.all_steps()} != {steps}')
    self.visible_before = set(steps)
    if self.cfg['ds']:
      have = self.ds_steps()
      kd = self.cfg['keep_ds']
      if kd:
        base = (self.ds_before | {step}) & set(steps)
        want_ds = set(sorted(base)[-kd:]) | (self.pinned & base)
        if have != want_ds:
          self.s.fail('dataset-retention', f'after saving {step} with '
                      f'keep_dataset_checkpoints={kd}: iterator states at '
                      f'{sorted(have)}, expected {sorted(want_ds)}')
      elif not set(steps) - (set(self.visible_start) - self.ds_start) <= have:
        self.s.fail('dataset-retention', f'iterator states lost: {have}')
      self.ds_before = have

  def ds_steps(self):
    out = set()
    for st in self.disk_steps():
      d = os.path.join(self.dir, c.ckpt_name(st))
      if any(n.startswith('train_ds') for n in os.listdir(d)):
        out.add(st)
    return out

  def reader(self):
    """Another job that lists and reads checkpoints while they come and go."""
    for _ in range(6):
      self.s.sleep(0.05 + self.ch.draw(100, 'reader') / 50.0)
      steps = checkpoints.all_steps(self.dir)
      if not steps:
        continue
      st = steps[self.ch.draw(len(steps), 'reader-step')]
      try:
        got = c.flat_np(checkpoints.load_t5x_checkpoint(self.dir, step=st))
      except (core.SimKilled, core.SimStop):
        raise
      except Exception as e:  # pylint: disable=broad-exception-caught
        if st in self.deleting:
          self.run.probe('reader-lost-race')
          continue
        self.s.fail('reader', f'a concurrent reader cannot read listed '
                    f'checkpoint {st}: {type(e).__name__}: {str(e)[:200]}')
      if st in self.deleting:
        continue
      if all(c.differs(got, w) for w in self.attempted[st].values()):
        self.s.fail('reader', f'a concurrent reader saw a mixed checkpoint '
                    f'{st}')
      self.run.probe('reader-ok')

  # ---- supervision
  def run_incarnation(self, plan, crashes, errors, start_delays):
    s = self.s
    cfg = self.cfg
    group = simhosts.Group(s, cfg['hosts'], f'job{self.incarnation}')
    hosts = []
    for i in range(cfg['hosts']):
      h = s.add_host(i, f'i{self.incarnation}h{i}', group=group)
      h.skew = start_delays[i]
      hosts.append(h)
    self.group_hosts = hosts
    self.entered = {}
    self.start_steps = self.disk_steps()
    self.visible_start = set(self.start_steps)
    self.visible_before = set(self.start_steps)
    self.ds_start = self.ds_before = self.ds_steps()
    self.ds_ok = {st: st in self.ds_start for st in self.start_steps}
    self.use_latest = self.ch.chance(500)
    s.fs.crash_at = {i: n for i, n in crashes.items()}
    s.fs.error_at = errors
    tasks = [s.spawn(h, lambda h=h: self.host_main(h, plan), 'main')
             for h in hosts]
    for t in tasks:
      t.expected = bool(errors)
    rd = None
    if cfg['readers']:
      rh = s.add_host(90 + self.incarnation, 'reader')
      rd = s.spawn(rh, self.reader, 'reader', daemon=True)
    me = core.current()
    # A host that died leaves the others at a barrier: the job controller then
    # kills and restarts the whole job, as on a real cluster.
    while not all(t.done for t in tasks):
      dead = [h for h in hosts if not h.alive]
      failed = [t for t in tasks if t.done and t.exc is not None]
      if dead or failed:
        s.sleep(self.ch.draw(50, 'detect') / 10.0)
        for h in hosts:
          s.crash_host(h, 'killed with its job')
        break
      s.sleep(0.5)
    for t in tasks:
      s.join(t)
    if rd is not None:
      s.join(rd)
    died = [t for t in tasks if isinstance(t.exc, core.SimKilled)]
    failed = [t for t in tasks if t.exc is not None
              and not isinstance(t.exc, (core.SimKilled, core.SimStop))]
    if failed and not errors:
      t = failed[0]
      self.run.unexpected(t.exc, t.tb, f'{t.host.name}')
    return died, failed

  def verify_disk(self, when, clean):
    """Everything listed restores to a saved state; nothing committed is lost."""
    s = self.s
    steps = checkpoints.all_steps(self.dir)
    disk = self.disk_steps()
    if steps != disk:
      s.fail('listing', f'{when}: all_steps() {steps} != {disk}')
    for st in disk:
      self.check_visible(st, when)
    if self.pin_doubt is not None:  # cut short: it took effect or it did not
      self.pinned.discard(self.pin_doubt)
      if os.path.exists(os.path.join(
          self.dir, c.ckpt_name(self.pin_doubt), 'PINNED')):
        self.pinned.add(self.pin_doubt)
      self.pin_doubt = None
    lost = {st for st in self.committed if st not in disk}
    for st in lost:
      if st not in self.deleting:
        s.fail('lost', f'{when}: committed checkpoint {st} is gone')
    pinned_lost = self.pinned - set(disk)
    if pinned_lost:
      s.fail('pinned-lost', f'{when}: pinned {pinned_lost} are gone')
    if self.committed and max(disk, default=-1) < max(self.committed):
      s.fail('newest-lost', f'{when}: newest committed checkpoint '
             f'{max(self.committed)} is gone')
    for st in self.disk_steps():
      self.deleting.discard(st)

  def supervise(self):
    ch = self.ch
    s = self.s
    cfg = self.cfg
    incarnations = 1 + ch.draw(3, 'incarnations')
    for k in range(incarnations):
      last = k == incarnations - 1
      self.incarnation = k
      plan = []
      for j in range(cfg['saves'] if k == 0 else 1 + ch.draw(3, 'more')):
        inc = ch.pick([10, 1, 7], 'inc')
        if j == 0 and k == 0 and cfg['zero']:
          inc = 0
        plan.append((inc, [ch.draw(5, 'pin')] if ch.chance(
              500 if self.focus == 'retention' else 250) else []))
      crashes, errors = {}, {}
      if not last:
        what = ch.weighted([('crash', 6), ('error', 2)], 'what')
        who = ch.draw(cfg['hosts'], 'who')
        span = (60 if who == 0 else 30) * max(1, cfg['saves'] // 2)
        if what == 'crash':
          crashes[who] = 1 + ch.draw(span, 'crash-at')
          if cfg['hosts'] > 1 and ch.chance(200):
            other = ch.draw(cfg['hosts'], 'who2')
            crashes[other] = 1 + ch.draw(span, 'crash-at2')
        else:
          n = 1 + ch.draw(span, 'error-at')
          count = ch.pick([1, 10 ** 6], 'error-count')
          errors[who] = [(n, count, ch.pick(['enospc', 'eio'], 'error'))]
      # Clock jumps between incarnations; skew between hosts.
      if ch.chance(300):
        d = ch.pick([3600.0, -30.0, -86400.0], 'jump')
        s.now_wall_shift = d
        s.fault('clock-jump', f'{d}s')
        self.jump = getattr(self, 'jump', 0.0) + d
      delays = [getattr(self, 'jump', 0.0)
                + (ch.draw(200, 'skew') / 10.0 if ch.chance(300) else 0.0)
                for _ in range(cfg['hosts'])]
      died, failed = self.run_incarnation(plan, crashes, errors, delays)
      s.fs.crash_at, s.fs.error_at = {}, {}
      self.verify_disk(f'after incarnation {k}', not died and not failed)
      if died:
        self.run.probe('crashed')
      if failed:
        self.run.probe('failed')


def world(run, focus):
  cfg = draw_cfg(run.ch, focus)
  run.note(**{k: str(v) if k in ('dtype', 'save_dtype') else v
              for k, v in cfg.items()})
  w = World(run, cfg, focus)
  sup = w.s.add_host(99, 'ctl')
  w.s.spawn(sup, w.supervise, 'supervisor')
  run.go(w.s)
