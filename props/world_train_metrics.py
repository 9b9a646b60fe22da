"""What training reports: complete, exact, ordered, by one host."""

import numpy as np

from dst import core
from dst.simfs import FaultPlan
from dst.simfs import with_nopreempt
from props import world_train as wt
from props import world_train_stop as stop


def draw_cfg(ch):
  cfg = wt.draw_base(ch)
  cfg['hosts'] = ch.pick([1, 2, 1, 3], 'hosts')
  cfg['replicas'] = cfg['hosts'] if cfg['hosts'] == 3 else 1
  cfg['data'] = 'count'
  unit = ch.pick([1, 2, 3], 'unit')
  cfg['save'] = ch.chance(400)
  cfg['period'] = unit * ch.pick([1, 2], 'period') if cfg['save'] else None
  if cfg['save'] and ch.chance(300):
    cfg['ckpt_steps'] = sorted(ch.shuffle(list(range(1, 10)), 'steps')[:2])
  cfg['stats_period'] = ch.pick([None, 1, 2, 3], 'stats')
  cfg['eval_sets'] = wt.EVAL_SETS[:ch.pick([2, 1, 0], 'sets')]
  cfg['infer_eval'] = ch.chance(600)
  if cfg['eval_sets'] or cfg['infer_eval']:
    cfg['eval_period'] = unit * ch.pick([1, 2], 'eval-mult')
    cfg['eval_first'] = ch.chance(300)
  cfg['concurrent'] = ch.chance(600)
  return cfg


class World(stop.Resumed):

  def __init__(self, run):
    ch = run.ch
    cfg = draw_cfg(ch)
    self.fail_write = (ch.draw(60, 'fail-write') + 1 if ch.chance(250)
                       else None)
    run.note(fail_write=self.fail_write, **cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.draw_first()
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([0, 30, 200], 'preempt')
    self.data_delay = self.ch.pick([0, 0, 0.3], 'data-delay')
    self.slow = self.ch.pick([0, 0, 0.05, 0.7], 'slow-writer')
    self.step_time = self.ch.pick([0.1, 0.01, 1.0], 'step-time')
    self.series = {}
    self.predictions = {}
    self.writes, self.failed = 0, None
    self.ended, self.end_time, self.done_at = {}, {}, {}

  def stepped(self, host, state):
    if host.index == 0 and not self.prelude:
      self.end_time[int(np.asarray(state.step))] = self.s.now

  def write_fault(self, writer):
    if self.prelude:
      return
    if self.slow:
      self.s.sleep(self.slow)
    self.writes += 1
    if self.writes == self.fail_write:
      self.failed = writer.name
      self.s.fault('metric-write-error', writer.name)
      raise OSError(28, 'injected: no space left on device')

  def overlapped(self, writer):
    self.s.fail('overlap', f'two threads write metrics of {writer.name} at '
                'once')

  def written(self, writer, step, scalars):
    if self.prelude:
      return
    host = core.current().host
    if host.index != 0 or writer.host.index != 0:
      self.s.fail('wrong-host', f'{host.name} wrote metrics of {writer.name}')
    if writer.closed:
      self.s.fail('closed', f'metrics of {writer.name} written after close')
    if 'loss' not in scalars:
      return
    got = self.series.setdefault(writer.name, [])
    k = len(got)
    want = self.due[writer.name] if writer.name in self.due else []
    if self.failed and step in want and (not got or step > got[-1]):
      k = want.index(step)  # a failed write left a gap
    if k >= len(want) or want[k] != step:
      self.s.fail('wrong-series', f'{writer.name}: metrics of step {step} '
                  f'after those of {got}, expected {want}')
    got.append(step)
    bad = self.judge(writer.name, k, step, scalars)
    if bad:
      self.s.fail('wrong-metrics', f'{writer.name} at step {step}: {bad} '
                  f'in {scalars}')
    self.run.probe('summary')

  def judge(self, name, k, step, m):
    if name == 'train':
      start = self.wins[k - 1] if k else self.first
      n = step - start
      loss = np.mean([self.losses[x] for x in range(start + 1, step + 1)])
      lr = np.mean([0.05 + 0.001 * x for x in range(start, step)])
      if not np.isclose(m['learning_rate'], lr, rtol=1e-4):
        return f'learning rate {m["learning_rate"]} instead of {lr}'
      last = 0.05 + 0.001 * (step - 1)
      if not np.isclose(m['learning_rate/current'], last, rtol=1e-4):
        return f'current learning rate instead of {last}'
      # from the end of the last step before to the time it is written
      most = self.s.now - self.end_time.get(start, self.begun)
      least = (n - 1) * self.step_time
      if not least * 0.99 <= m['seconds'] <= most + 0.01:
        return f'{m["seconds"]} seconds, not within {least} and {most}'
    else:
      n = dict(self.cfg['eval_sets'])[name.split('/', 1)[1]]
      loss = self.losses[name, step]
      if not 0 <= m['seconds'] <= self.s.now:
        return 'impossible duration'
    if not np.isclose(m['loss'], loss, rtol=1e-4):
      return f'loss {m["loss"]} instead of {loss}'
    rows = n * wt.BATCH
    if m['rows'] != rows:
      return f'{m["rows"]} rows instead of {rows}'
    if m['seconds'] > 0:
      for key, count in (('rows_per_second', rows), ('steps_per_second', n)):
        if not np.isclose(m[key] * m['seconds'], count, rtol=1e-3):
          return f'{key} is not {count} per {m["seconds"]} seconds'
    return None

  def inferred(self, host, step, out):
    got = self.predictions.setdefault(host.name, [])
    if host.index != 0:
      self.s.fail('wrong-host', f'{host.name} computed inference metrics')
    want = self.evals[len(got)] if len(got) < len(self.evals) else None
    if step != want:
      self.s.fail('wrong-series', f'inference evaluation of step {step} after '
                  f'{got}, expected {self.evals}')
    got.append(step)
    w = self.states[step]['target/w'].astype(np.float32).ravel()
    for i, row in out:
      want = np.concatenate([[2.0 * i], w])
      if not np.array_equal(np.asarray(row, np.float32), want):
        self.s.fail('wrong-parameters', f'the inference evaluation of step '
                    f'{step} predicts {row} for example {i}, expected {want}')
    if [i for i, _ in out] != [0, 1, 2]:
      self.s.fail('wrong-predictions', f'{out}')
    self.run.probe('inferred')

  def returned(self, host, result):
    if self.prelude:
      return
    self.done_at[host.name] = True
    if host.index != 0:
      return
    if self.failed:
      self.s.fail('error-lost', f'writing metrics of {self.failed} failed, but '
                  'training returned')
    for name in self.due:
      if self.series.get(name, []) != self.due[name]:
        self.s.fail('incomplete', f'training returned with {name} metrics of '
                    f'steps {self.series.get(name, [])}, expected '
                    f'{self.due[name]}')
    got = self.predictions.get(host.name, [])
    if self.cfg['infer_eval'] and got != self.evals:
      self.s.fail('incomplete', f'training returned with inference evaluations '
                  f'of {got}, expected {self.evals}')
    if any(not w.closed for w in self.writers if w.host is host):
      self.s.fail('not-closed', 'training returned with open metric writers')

  def patient(self, tasks):
    return True

  def supervise(self):
    cfg, s = self.cfg, self.s
    self.begin()
    self.begun = s.now
    self.end_time = {self.first: s.now}
    self.wins = stop.windows(cfg, self.first)
    self.evals = stop.evaluations(cfg, self.wins, self.first)
    self.due = {'train': self.wins}
    for n, _ in cfg['eval_sets']:
      self.due['training_eval/' + n] = self.evals
    results, bad, died = self.job()
    if self.failed:
      self.run.probe('write-failed')
      if not any(t.host.index == 0 for t in bad):
        s.fail('error-lost', f'writing metrics of {self.failed} failed, but '
               'training did not raise')
      return
    if bad:
      self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
    if len(results) != cfg['hosts']:
      s.fail('no-progress', 'a host did not finish')


def world(run):
  w = World(run)
  w.states, w.losses = wt.reference(run, w.cfg)
  with wt.Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
