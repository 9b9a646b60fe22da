"""What the hosts of a job are fed: shares of one input, whatever the clocks.

The training loop of world_train over the real t5x.utils.get_dataset and
get_training_eval_datasets, on seqio tasks and mixtures of numbered examples.
"""

import collections
import inspect
import os

import jax
import numpy as np
import seqio
import tensorflow as tf

from dst import core
from dst.simfs import FaultPlan
from dst.simfs import quiet_options
from dst.simfs import with_nopreempt
from props import common as c
from props import world_train as wt
from t5x import utils

TRAIN, EVAL = 'train', 'validation'
_REAL_GET = seqio.get_dataset


class Converter(seqio.PassThroughFeatureConverter):

  def __call__(self, ds, task_feature_lengths):
    return ds


class Model(wt.Model):
  FEATURE_CONVERTER_CLS = Converter

  def loss_fn(self, params, batch, dropout_rng, flax_mutables=None):
    x = batch['x'].astype(np.float32)
    return super().loss_fn(params, {'x': x / 100.0}, dropout_rng,
                           flax_mutables)


FEATURES = {'x': seqio.Feature(
    seqio.PassThroughVocabulary(1000), add_eos=False, rank=1, dtype=tf.int32)}


def numbered(base, n):
  i = np.arange(base, base + n, dtype=np.int32)
  return np.stack([i, i * 7 % 31], 1)


def parse(line):
  i = tf.strings.to_number(line, tf.int32)
  return {'x': tf.stack([i, i * 7 % 31])}


def make_task(name, spec, root, base):
  """A task; spec: source, sizes of its splits, shuffle buffer, cache."""
  sizes = {k: v for k, v in spec['sizes'].items() if v}
  counts = dict(sizes) if spec['cache'] else None
  where = {TRAIN: base, EVAL: base + 400}
  pre = []
  if spec['source'] == 'function':

    def fn(split, shuffle_files, seed=None):
      return tf.data.Dataset.from_tensor_slices(
          {'x': numbered(where[split], sizes[split])})

    source = seqio.FunctionDataSource(fn, splits=list(sizes),
                                      num_input_examples=counts)
  else:
    files = {}
    for split, n in sizes.items():
      files[split] = []
      parts = np.array_split(numbered(where[split], n), spec['files'])
      for i, part in enumerate(parts):
        path = os.path.join(root, f'{name}-{split}-{i}')
        with c.REAL_OPEN(path, 'w') as f:
          f.write(''.join(f'{a}\n' for a, _ in part))
        files[split].append(path)
    source = seqio.TextLineDataSource(files, num_input_examples=counts)
    pre = [lambda ds: ds.map(parse)]
  return seqio.Task(name, source, preprocessors=pre, output_features=FEATURES,
                    shuffle_buffer_size=spec['buffer'])


def draw_cfg(ch):
  cfg = wt.draw_base(ch)
  cfg['mutables'] = False
  cfg['microbatches'] = None
  cfg['hosts'] = ch.pick([2, 1, 4], 'hosts')
  cfg['replicas'] = 1
  if cfg['hosts'] > 1 and ch.chance(350):
    cfg['replicas'] = ch.pick([2, cfg['hosts']], 'replicas')
  if cfg['hosts'] // cfg['replicas'] > wt.FEATURES:
    cfg['ts'] = False  # the parameters have too few rows
  cfg['orbax'] = cfg['orbax'] and cfg['hosts'] == 1
  cfg['total'] = 4 + ch.draw(7, 'total')
  cfg['data'] = 'seqio'
  cfg['save'] = ch.chance(700)
  cfg['period'] = ch.pick([2, 1, 3], 'period') if cfg['save'] else None
  cfg['keep'] = ch.pick([None, 1, 2], 'keep') if cfg['save'] else None
  cfg['save_ds'] = cfg['save'] and ch.chance(750)
  cfg['stats_period'] = ch.pick([None, 2], 'stats')
  cfg['random'] = ch.pick([None, 3, 0], 'random-seed')
  cfg['data_seed'] = ch.pick([None, None, 5, 0], 'data-seed')
  cfg['shuffle'] = ch.chance(650)
  cfg['tasks'] = []
  for _ in range(ch.pick([1, 1, 2], 'tasks')):
    cfg['tasks'].append({
        'source': ch.pick(['function', 'files'], 'source'),
        'sizes': {TRAIN: ch.pick([8, 5, 13], 'train-size'),
                  EVAL: ch.pick([7, 3, 16, 0], 'eval-size')},
        'files': ch.pick([2, 1, 3, 4], 'files'),
        'cache': ch.chance(400),
        'buffer': ch.pick([3, 100, 2], 'buffer')})
  if all(not t['sizes'][EVAL] for t in cfg['tasks']):
    cfg['tasks'][0]['sizes'][EVAL] = 7
  # a source may have fewer examples than there are files or shards
  cfg['eval'] = ch.chance(600)
  cfg['eval_steps'] = ch.pick([2, 1, 3], 'eval-steps')
  cfg['eval_period'] = 0
  if cfg['eval']:
    cfg['eval_period'] = (cfg['period'] or 1) * ch.pick([1, 2], 'eval-period')
  cfg['eval_first'] = ch.chance(300)
  cfg['eval_seed'] = ch.pick([None, 7, 0], 'eval-seed')
  cfg['eval_shuffle'] = ch.chance(250)
  cfg['eval_cache'] = ch.chance(500)
  cfg['trim'] = ch.chance(150)
  return cfg


_COUNT = [0]


class World(wt.World):

  def __init__(self, run):
    ch = run.ch
    cfg = draw_cfg(ch)
    run.note(**cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([0, 30, 200], 'preempt')
    self.skews = [self.ch.pick([0.0, -3.0, 2.5, 40.0, -500.0], 'skew')
                  for _ in range(cfg['hosts'])]
    self.shards = cfg['hosts'] // cfg['replicas']
    _COUNT[0] += 1
    self.root = os.path.join(run.scratch, 'input')
    os.makedirs(self.root)
    self.tasks = []
    self.registered = []
    for i, spec in enumerate(cfg['tasks']):
      task = make_task(f'sim{_COUNT[0]}_{i}', spec, self.root, 1000 * i)
      seqio.TaskRegistry.add_provider(task.name, task)
      self.registered.append((seqio.TaskRegistry, task.name))
      self.tasks.append(task)
    self.provider = self.tasks[0]
    if len(self.tasks) > 1:
      name = f'simmix{_COUNT[0]}'
      self.provider = seqio.MixtureRegistry.add(
          name, [(t.name, 1.0 + i) for i, t in enumerate(self.tasks)])
      self.registered.append((seqio.MixtureRegistry, name))
    self.line = {}  # shard -> {step: rows}, of the present input
    self.scratch, self.known = {}, {}
    self.clear()

  def clear(self):
    self.fed_to, self.evals, self.seeds, self.inits = {}, {}, {}, {}
    self.at, self.first = {}, {}

  def remove(self):
    for registry, name in self.registered:
      registry.remove(name)

  def skew(self, host):
    return self.skews[host.index]

  # -- the input, seen where it enters the step
  def get(self, *a, **kw):
    """seqio.get_dataset, without threads of its own."""
    t = core.current()
    if t is not None and t.host.group is not None:
      args = inspect.signature(_REAL_GET).bind(*a, **kw).arguments
      self.seeds.setdefault(args.get('dataset_split', TRAIN), {}).setdefault(
          t.host.name, []).append(args.get('seed'))
    return with_nopreempt(
        t, lambda: _REAL_GET(*a, **kw).with_options(quiet_options()))

  def shard_of(self, host):
    return host.index // self.cfg['replicas']

  def fed(self, host, state, batch, training):
    rows = [tuple(r) for r in np.asarray(batch['x']).tolist()]
    if training:
      step = int(np.asarray(state.step))
      self.first.setdefault(host.name, step)
      self.fed_to.setdefault(host.name, {})[step] = rows
    else:
      self.evals.setdefault(host.name, []).append(rows)

  def stepped(self, host, state):
    step = int(np.asarray(state.step))
    got = with_nopreempt(core.current(),
                         lambda: c.flat_np(state.state_dict()))
    if step not in self.at:
      self.at[step] = host.name, got
      return
    why = c.differs(got, self.at[step][1])
    if why:
      self.s.fail('hosts-differ', f'{host.name} and {self.at[step][0]} have '
                  f'different states at step {step}: {why}')

  def initialised(self, host, state):
    self.stepped(host, state)
    got = self.at[0][1]
    for job, other in self.scratch.items():
      same = c.differs(got, other) is None
      if job != self.jobs and same != (self.cfg['random'] is not None):
        self.s.fail('wrong-start', 'two jobs start from scratch with '
                    f'{"the same" if same else "different"} parameters, the '
                    f'random seed configured is {self.cfg["random"]}')
    self.scratch[self.jobs] = got

  # -- the configuration
  def dataset_cfg(self, split):
    cfg = self.cfg
    ev = split == EVAL
    return utils.DatasetConfig(
        mixture_or_task_name=self.provider.name,
        task_feature_lengths={'x': 2}, split=split, batch_size=wt.BATCH,
        shuffle=cfg['eval_shuffle' if ev else 'shuffle'],
        seed=cfg['eval_seed' if ev else 'data_seed'],
        use_memory_cache=cfg['eval_cache'],
        trim_output_features=cfg['trim'])

  def kw(self):
    cfg = self.cfg
    return dict(
        model=Model(False), train_dataset_cfg=self.dataset_cfg(TRAIN),
        train_eval_dataset_cfg=self.dataset_cfg(EVAL) if cfg['eval'] else None,
        random_seed=cfg['random'], get_dataset_fn=utils.get_dataset,
        train_eval_get_dataset_fn=utils.get_training_eval_datasets,
        eval_steps=cfg['eval_steps'])

  # -- the reference
  def stream(self, seed, shard, count):
    """The first batches of a shard, straight from seqio."""
    cfg = self.cfg
    n = wt.BATCH // self.shards
    key = seed, shard
    if key in self.known and len(self.known[key]) >= count:
      return self.known[key]
    count = max(count, cfg['total'])

    def make():
      ds = _REAL_GET(
          self.provider, {'x': 2}, Model.FEATURE_CONVERTER_CLS(pack=False),
          dataset_split=TRAIN, shuffle=cfg['shuffle'], num_epochs=None,
          shard_info=seqio.ShardInfo(shard, self.shards), seed=seed,
          batch_size=n, verbose=False,
          trim_output_features=cfg['trim']).with_options(quiet_options())
      return [[tuple(r) for r in b['x'].tolist()]
              for b in ds.take(count).as_numpy_iterator()]

    self.known[key] = with_nopreempt(core.current(), make)
    return self.known[key]

  def eval_names(self):
    out = [t.name for t in self.tasks if EVAL in t.splits]
    if len(self.tasks) > 1:
      out.append(self.provider.name)
    return out

  def eval_stream(self, name, seed):
    cfg = self.cfg
    count = cfg['eval_steps'] * wt.BATCH
    key = name, seed
    if key in self.known:
      return self.known[key]

    def make():
      ds = _REAL_GET(
          name, {'x': 2}, Model.FEATURE_CONVERTER_CLS(pack=False),
          dataset_split=EVAL, shuffle=cfg['eval_shuffle'], num_epochs=count,
          shard_info=None, seed=seed, verbose=False,
          trim_output_features=cfg['trim'])
      ds = ds.with_options(quiet_options()).take(count)
      rows = [tuple(b['x'].tolist()) for b in ds.as_numpy_iterator()]
      return [rows[i:i + wt.BATCH] for i in range(0, count, wt.BATCH)]

    self.known[key] = with_nopreempt(core.current(), make)
    return self.known[key]

  # -- after a job
  def one_seed(self, split, k=0):
    """The seed of the k-th pipeline of this kind that every host has made."""
    every = {h: v[k] for h, v in self.seeds.get(split, {}).items()
             if len(v) > k}
    if len(set(every.values())) > 1:
      self.s.fail('seeds-differ', f'seeds of the {split} data: {every}')
    return next(iter(every.values())) if every else None

  def check_train(self, seed):
    s, cfg = self.s, self.cfg
    for name, steps in sorted(self.fed_to.items()):
      shard = self.shard_of(self.by_name[name])
      line = self.line.setdefault(shard, {})
      for step, rows in steps.items():
        if line.get(step, (None, rows))[1] != rows and line[step][0] == \
            self.jobs:
          s.fail('replicas-differ', f'shard {shard}, step {step}: {name} was '
                 f'fed {rows}, another host {line[step][1]}')
        line[step] = self.jobs, rows
    top = max([k for v in self.line.values() for k in v], default=-1)
    if top < 0:
      return
    mixed = len(self.tasks) > 1
    moved = self.resumed and self.base_seed != seed
    seen = {}
    for shard, line in sorted(self.line.items()):
      want = self.stream(self.base_seed, shard, top + 1 - self.base_step)
      files = any(t['source'] == 'files' for t in cfg['tasks'])
      for step, (_, rows) in sorted(line.items()):
        ref = want[step - self.base_step]
        if len(rows) != len(ref):
          s.fail('wrong-size', f'shard {shard} was fed {len(rows)} rows at '
                 f'step {step}, of {wt.BATCH} over {self.shards} shards')
        if (not moved or not files or not cfg['shuffle']) and rows != ref:
          s.fail('wrong-batch', f'shard {shard} at step {step}: fed {rows}, '
                 f'its input, started at step {self.base_step}, has {ref}')
        for r in rows:
          if self.members(r[0] // 1000, shard) is None:
            continue
          if seen.setdefault(r, shard) != shard:
            s.fail('shared-example', f'example {r} was fed to the shards '
                   f'{seen[r]} and {shard}')
      self.conserved(shard, line)

  def conserved(self, shard, line):
    """No example is ahead or behind by more than the shuffle explains."""
    s, cfg = self.s, self.cfg
    if set(line) != set(range(self.base_step, self.base_step + len(line))):
      s.fail('missing-step', f'shard {shard} was fed at steps {sorted(line)}')
    got = collections.Counter(r for _, rows in line.values() for r in rows)
    for i, (task, spec) in enumerate(zip(self.tasks, cfg['tasks'])):
      mine = self.members(i, shard)
      if mine is None:
        continue
      n = sum(k for r, k in got.items() if r[0] // 1000 == i)
      slack = spec['buffer'] if cfg['shuffle'] else 0
      extra = [r for r in got if r[0] // 1000 == i and r not in mine]
      if extra:
        s.fail('foreign-example', f'shard {shard} was fed {extra}, which are '
               'not its share of the input')
      most = -(-(n + slack) // len(mine)) if mine else 0
      often = {r: k for r, k in got.items()
               if r[0] // 1000 == i and k > most}
      if often:
        s.fail('repeated-example', f'shard {shard}: of {n} examples of a '
               f'share of {len(mine)}, fed too often: {often}')
      lack = sum(max(0, n // len(mine) - got[r]) for r in mine) if mine else 0
      if lack > slack:
        s.fail('skipped-example', f'shard {shard}: after {n} examples of a '
               f'share of {len(mine)}, {lack} are behind')

  def members(self, i, shard):
    """The examples of a task that belong to a shard."""
    spec, n = self.cfg['tasks'][i], self.shards
    size = spec['sizes'][TRAIN]
    rows = [tuple(r) for r in numbered(1000 * i, size).tolist()]
    if spec['source'] == 'files' and spec['files'] >= n:
      parts = np.array_split(np.arange(size), spec['files'])
      return {rows[k] for p in parts[shard::n] for k in p}
    if n == 1:
      return set(rows)
    if spec['source'] == 'function':
      return set(rows[shard::n])
    # fewer files than shards: every n-th example, in the order of the files,
    # which may be another one in each epoch
    if self.cfg['shuffle'] and spec['files'] > 1:
      return None
    return set(rows[shard::n])

  def check_eval(self):
    s, cfg = self.s, self.cfg
    if not self.evals:
      return
    want = []
    for k, name in enumerate(self.eval_names()):
      seed = self.one_seed(EVAL, k)
      if cfg['eval_seed'] not in (None, seed):
        s.fail('wrong-seed', f'the evaluation data has seed {seed}, configured '
               f'is {cfg["eval_seed"]}')
      want += self.eval_stream(name, seed)
    for name, got in sorted(self.evals.items()):
      shard = self.shard_of(self.by_name[name])
      for k, rows in enumerate(got):
        if cfg['eval_shuffle'] and not cfg['eval_cache'] and k >= len(want):
          break
        ref = want[k % len(want)][shard::self.shards]
        if rows != ref:
          s.fail('wrong-eval', f'shard {shard}: batch {k % len(want)} of '
                 f'evaluation {k // len(want)} has {rows}, expected {ref}')
    self.run.probe('evaluated')

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    rounds = ch.pick([1, 2, 0], 'rounds')
    self.resumed = False
    used = []
    for k in range(rounds + 1):
      last = k == rounds
      s.fs.crash_at = {}
      kill = None
      if not last:
        who = ch.draw(cfg['hosts'], 'who')
        if ch.chance(500):
          s.fs.crash_at = {who: 1 + ch.draw(60 if who == 0 else 12, 'at')}
        else:
          kill = (who, ch.draw(80, 'when') / 20)
      have = wt.listed(self.dir)
      start = have[-1] if have else 0
      self.clear()
      if not (have and cfg['save_ds']):
        self.line, self.base_step, self.base_seed = {}, start, None
        self.resumed = False
      else:
        self.line = {sh: {st: v for st, v in line.items() if st < start}
                     for sh, line in self.line.items()}
        self.resumed = True
      results, bad, died = self.job(kill, **self.kw())
      if bad:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      self.by_name = {h.name: h for h in self.hosts}
      seed = self.one_seed(TRAIN)
      if seed is not None and self.base_seed is None:
        self.base_seed = seed
      if seed is not None and cfg['data_seed'] is None:
        if seed in used:
          s.fail('same-seed', f'a job started later has the seed {seed} of an '
                 'earlier one, so it repeats its input')
        used.append(seed)
      if cfg['data_seed'] is not None and seed not in (None,
                                                       cfg['data_seed']):
        s.fail('wrong-seed', f'the data has seed {seed}, configured is '
               f'{cfg["data_seed"]}')
      for name, first in self.first.items():
        if first != start:
          s.fail('wrong-start', f'{name} starts at step {first}, not {start}')
      self.check_train(seed)
      self.check_eval()
      if self.fed_to:
        self.run.probe('resumed-input' if self.resumed else 'fresh-input')
      if last and len(results) != cfg['hosts']:
        s.fail('no-progress', 'without faults training did not finish')
      for step, state in results:
        if int(np.asarray(state.step)) != cfg['total']:
          s.fail('wrong-end', f'ended at {step}, expected {cfg["total"]}')
      s.sleep(2)


def world(run):
  w = World(run)
  if w.cfg['random'] is None:
    utils.set_hardware_rng_ops()
  seqio.get_dataset = w.get
  try:
    with wt.Patched(w):
      w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
      run.go(w.s)
  finally:
    seqio.get_dataset = _REAL_GET
    jax.config.update('jax_default_prng_impl', 'threefry2x32')
    w.remove()
