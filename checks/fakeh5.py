"""A stand-in for h5py that keeps the files in memory."""
import types

import numpy as np


def make():
    files = {}

    class Empty:
        def __init__(self, dtype='f'):
            self.dtype = np.dtype(dtype)

    class Dataset:
        def __init__(self, data, dtype=None):
            if dtype is not None and isinstance(data, np.ndarray) and data.dtype != object and not isinstance(data, Empty):
                data = data.astype(dtype)
            self.data, self.attrs = data, {}

        dtype = property(lambda s: getattr(s.data, 'dtype', None))
        shape = property(lambda s: np.shape(s.data))

        def __getitem__(self, k):
            return self.data if k == () or k is Ellipsis else self.data[k]

        def __setitem__(self, k, v):
            self.data = v

    class Group:
        def __init__(self, root, path):
            self.root, self.path = root, path
            self.attrs = root.setdefault('@' + path, {})

        def _p(self, name):
            return '/'.join(x for x in f'{self.path}/{name}'.split('/') if x)

        def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
            p = self._p(name)
            if p in self.root:
                raise ValueError('Unable to create dataset (name already exists)')
            self.root[p] = Dataset(data, dtype)
            return self.root[p]

        def require_group(self, name):
            return Group(self.root, self._p(name))
        create_group = require_group

        def __contains__(self, name):
            p = self._p(name)
            return p in self.root or any(x.lstrip('@').startswith(p + '/') for x in self.root)

        def __delitem__(self, name):
            del self.root[self._p(name)]

        def __getitem__(self, name):
            p = self._p(name)
            if p in self.root:
                return self.root[p]
            if '@' + p in self.root or name in self:
                return Group(self.root, p)
            raise KeyError(f"Unable to open object (object '{p}' doesn't exist)")

    class Attr(dict):
        def __getitem__(self, k):
            v = dict.__getitem__(self, k)
            return v if isinstance(v, np.ndarray) or hasattr(v, '__getitem__') else np.array(v)[()]

    class File(Group):
        def __init__(self, name, mode='r', **k):
            name = str(name)
            if mode in ('w', 'x', 'w-'):
                files[name] = {}
            elif name not in files:
                if mode == 'a':
                    files[name] = {}
                else:
                    raise FileNotFoundError(f'Unable to open file {name}')
            Group.__init__(self, files[name], '')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    m = types.ModuleType('h5py')
    m.File, m.Group, m.Dataset, m.Empty, m.files = File, Group, Dataset, Empty, files
    m.Dataset_ = Dataset
    return m
