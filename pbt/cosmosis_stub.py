"""
A stand-in for the data block of CosmoSIS (which is not installed): values by section and name, both case-insensitive.
"""
import os
import sys
import types

import numpy as np

from . import env
from .core import Violation

OPTIONS = 'module_options'


class Block:
    def __init__(self, values=None):
        self.v = {}
        self.meta = {}
        self.written = set()
        for (s, n), x in (values or {}).items():
            self.v[s.lower(), n.lower()] = x

    def key(self, s, n):
        return str(s).lower(), str(n).lower()

    def has_value(self, s, n):
        return self.key(s, n) in self.v

    def has_section(self, s):
        return any(k[0] == s.lower() for k in self.v)

    def __contains__(self, k):
        return self.has_value(*k)

    def __getitem__(self, k):
        try:
            x = self.v[self.key(*k)]
        except KeyError:
            raise ValueError(f'no value {k} in the block') from None
        return x.copy() if isinstance(x, np.ndarray) else x

    def __setitem__(self, k, x):
        x = x.copy() if isinstance(x, np.ndarray) else x
        self.v[self.key(*k)] = x
        self.written.add(self.key(*k))

    def get(self, s, n, default=None):
        if self.has_value(s, n):
            return self[s, n]
        if default is None:
            raise ValueError(f'no value {s}, {n} in the block')
        return default

    def _typed(self, kind, s, n, default):
        x = self.get(s, n, default)
        if not isinstance(x, kind) or (isinstance(x, bool) and kind is not bool):
            raise ValueError(f'{s}, {n} has the wrong type: {x!r}')
        return x

    def get_double(self, s, n, default=None):
        return float(self._typed((int, float), s, n, default))

    def get_int(self, s, n, default=None):
        return self._typed(int, s, n, default)

    def get_string(self, s, n, default=None):
        return self._typed(str, s, n, default)

    def get_bool(self, s, n, default=None):
        return self._typed(bool, s, n, default)

    def get_double_array_1d(self, s, n, default=None):
        x = self.get(s, n, default)
        if np.ndim(x) != 1:
            raise ValueError(f'{s}, {n} is not a one-dimensional array')
        return np.array(x, float)

    def get_double_array_nd(self, s, n, default=None):
        return np.array(self.get(s, n, default), float)

    get_double_array_2d = get_double_array_nd

    def get_grid(self, s, x, y, z):
        gx, gy, g = self[s, x], self[s, y], self[s, z]
        if g.shape == (gx.size, gy.size):
            return gx, gy, g
        if g.shape == (gy.size, gx.size):
            return gx, gy, g.T
        raise ValueError('no such grid')

    def put(self, s, n, x, **kw):
        self[s, n] = x

    put_int = put_double = put_string = put_bool = put
    replace_int = replace_double = replace_string = replace_bool = put

    def sections(self):
        return sorted({k[0] for k in self.v})

    def keys(self, section=None):
        return [k for k in self.v if section is None or k[0] == section.lower()]

    def put_double_array_1d(self, s, n, x):
        if np.ndim(x) != 1:
            raise Violation(f'{s}, {n}: an array of shape {np.shape(x)} is stored as one-dimensional')
        self[s, n] = np.array(x, float)

    def put_double_array_nd(self, s, n, x):
        self[s, n] = np.array(x, float)

    def put_grid(self, s, nx, x, ny, y, nz, z):
        x, y, z = (np.array(a, float) for a in (x, y, z))
        if z.shape != (x.size, y.size):
            raise Violation(f'{s}, {nz}: an array of shape {z.shape} is stored on a grid of {x.size} times {y.size}')
        for n, a in ((nx, x), (ny, y), (nz, z)):
            self[s, n] = a

    def get_metadata(self, s, n, key):
        try:
            return self.meta[(*self.key(s, n), key)]
        except KeyError:
            raise ValueError(f'no metadata {key} of {s}, {n}') from None

    def put_metadata(self, s, n, key, x):
        self.meta[(*self.key(s, n), key)] = x

    replace_metadata = put_metadata
    replace_double_array_1d = put_double_array_1d
    put_double_array_2d = replace_double_array_2d = replace_double_array_nd = put_double_array_nd
    replace_grid = put_grid


def install():
    """Make 'import cosmosis.datablock' work, and the modules of the repository importable."""
    if 'cosmosis' not in sys.modules:
        m = types.ModuleType('cosmosis')
        d = types.ModuleType('cosmosis.datablock')
        d.option_section = OPTIONS

        class Names:
            def __getattr__(self, n):
                return n

        d.names = Names()
        d.SectionOptions = None
        d.BlockError = ValueError
        m.datablock = d
        sys.modules['cosmosis'] = m
        sys.modules['cosmosis.datablock'] = d
    base = os.path.join(env.REPO, 'cosmosis_modules')
    for p in (base, os.path.join(base, 'pk_to_real'), os.path.join(base, 'convert_theta')):
        if p not in sys.path:
            sys.path.insert(0, p)
