""" Scenario registry: checks/<module>.py declare scenarios per property """
import importlib
import os
import pkgutil

_SC = {}


class Scenario:
  def __init__(self, prop, name, fn, params, thorough, budget):
    self.prop, self.name, self.fn, self.params = prop, name, fn, params
    self.thorough = thorough
    self.budget = budget


def add(prop, name, fn, thorough=False, budget=None, **params):
  lst = _SC.setdefault(prop, [])
  assert all(s.name != name for s in lst), (prop, name)
  lst.append(Scenario(prop, name, fn, params, thorough, budget))


_loaded = False


def load():
  global _loaded
  if _loaded:
    return
  _loaded = True
  import checks
  for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
    importlib.import_module('checks.' + m)


def scenarios(prop, tier='quick'):
  load()
  return [s for s in _SC.get(prop, []) if tier == 'thorough' or not s.thorough]


def properties():
  load()
  return sorted(_SC)
