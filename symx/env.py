"""
Environment stubs for concrete replay: numpy's global random generator returns
the values of the counterexample (or fixed ordinary values) instead of noise.
"""
import contextlib

import numpy as np


@contextlib.contextmanager
def concrete_environment(cx):
  saved = {}

  def put(name, f):
    saved[name] = getattr(np.random, name)
    setattr(np.random, name, f)

  def randint(low, high=None, size=None, dtype=int):
    if high is None:
      low, high = 0, low
    return cx.draw(low, high - 1, size, True, True)

  def shuffle(x):
    p = cx.permutation(len(x))
    old = [x[int(i)] for i in p]
    for i, v in enumerate(old):
      x[i] = v
  put('uniform', lambda low=0.0, high=1.0, size=None: cx.draw(low, high, size))
  for n in ('random', 'random_sample', 'ranf', 'sample'):
    put(n, lambda size=None: cx.draw(0., 1., size))
  put('rand', lambda *d: cx.draw(0., 1., d if d else None))
  put('randint', randint)
  put('normal', lambda loc=0., scale=1., size=None: cx.draw(None, None, size) * scale + loc)
  put('randn', lambda *d: cx.draw(None, None, d if d else None))
  put('standard_normal', lambda size=None: cx.draw(None, None, size))
  put('permutation', cx.permutation)
  put('shuffle', shuffle)
  try:
    yield
  finally:
    for k, v in saved.items():
      setattr(np.random, k, v)
