def state_partition_rule(*a, **k):
  raise NotImplementedError('jestimator stub')
