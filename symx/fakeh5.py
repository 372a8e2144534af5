"""
In-memory stand-in for h5py.File used while the package runs symbolically:
groups, datasets and attributes, iterated in name order, holding arrays of
symbolic values. Concrete replays use the real h5py in a scratch directory.
"""
import numpy as np

FILES = {}


class Attrs(dict):
  def __setitem__(self, k, v):
    if isinstance(v, (bool, np.bool_)):
      v = np.bool_(v)
    elif isinstance(v, (int, np.integer)):
      v = np.int64(v)
    elif isinstance(v, float):
      v = np.float64(v)
    elif isinstance(v, (list, tuple, np.ndarray)):
      v = np.array(list(v), dtype=object) if any(isinstance(x, str) for x in v) else np.array(v)
    elif not isinstance(v, (str, np.generic)):
      raise TypeError('Object dtype has no native HDF5 equivalent')
    super().__setitem__(k, v)

  def update(self, *a, **k):
    for key, val in dict(*a, **k).items():
      self[key] = val

  create = __setitem__

  def __iter__(self):
    return iter(sorted(super().keys()))

  def keys(self):
    return sorted(super().keys())

  def values(self):
    return [self[k] for k in self.keys()]

  def items(self):
    return [(k, self[k]) for k in self.keys()]


class Dataset:
  def __init__(self, data):
    self._data = np.array(data, copy=True)
    if self._data.dtype.kind == 'U' or (self._data.dtype == object and any(
        x is None or isinstance(x, (str, set, dict)) for x in self._data.ravel())):
      raise TypeError('No conversion path for dtype')
    self.attrs = Attrs()

  shape = property(lambda self: self._data.shape)
  dtype = property(lambda self: np.dtype(float) if self._data.dtype == object else self._data.dtype)
  ndim = property(lambda self: self._data.ndim)
  size = property(lambda self: self._data.size)

  def __array__(self, dtype=None, copy=None):
    return np.array(self._data, copy=True)

  def __getitem__(self, i):
    return np.array(self._data, copy=True)[i] if i is not Ellipsis else np.array(self._data, copy=True)

  def __len__(self):
    return len(self._data)


class Group:
  def __init__(self):
    self._items = {}
    self.attrs = Attrs()

  def _put(self, k, v):
    if k in self._items:
      raise ValueError('Unable to create dataset (name already exists)')
    if '/' in k:
      h, t = k.split('/', 1)
      self.require_group(h)._put(t, v)
    else:
      self._items[k] = v
    return v

  def create_group(self, name, *a, **k):
    return self._put(name, Group())

  def require_group(self, name):
    return self._items[name] if name in self._items else self.create_group(name)

  def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
    return self._put(name, Dataset(data))

  def __setitem__(self, k, v):
    self._put(k, Dataset(v))

  def __getitem__(self, k):
    return self._items[k]

  def __contains__(self, k):
    return k in self._items

  def __delitem__(self, k):
    del self._items[k]

  def __len__(self):
    return len(self._items)

  def __iter__(self):
    return iter(sorted(self._items))

  def keys(self):
    return sorted(self._items)

  def values(self):
    return [self._items[k] for k in self.keys()]

  def items(self):
    return [(k, self._items[k]) for k in self.keys()]

  def get(self, k, d=None):
    return self._items.get(k, d)


class File(Group):
  def __init__(self, path, mode='r', *a, **k):
    super().__init__()
    path = str(path)
    if mode in ('w', 'w-', 'x'):
      FILES[path] = self
    elif path in FILES:
      self._items = FILES[path]._items
      self.attrs = FILES[path].attrs
    elif mode == 'a':
      FILES[path] = self
    else:
      raise FileNotFoundError(path)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def close(self):
    pass

  def flush(self):
    pass
