"""The `netCDF4` and `os` seen by the code under symbolic execution: result files in memory.

Values are stored exactly (no rounding to float32); elements never written are
masked, which here means they read as MASKED and any arithmetic on them is refused.
"""
import datetime
import os as _os
import types
from fractions import Fraction
import numpy as np
from . import core, arr, npx, pdx
from .core import Sym, SymBool, lift, Unsupported


class Masked(object):
    def __repr__(self):
        return '--'


MASKED = Masked()


class CFTime(object):
    """What num2date gives unless asked for Python datetimes (pandas does not accept it)."""

    def __init__(self, t):
        self.t = t

    def strftime(self, f):
        return self.t.strftime(f)


def _origin(units):
    u, _, d = units.partition(' since ')
    return lift({'seconds': 1, 'second': 1, 's': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}[u.strip()]), pdx.Timestamp(d.strip()).s


def date2num(t, units, calendar=None):
    k, o = _origin(units)
    f = lambda x: (pdx.Timestamp(x).s - o) / k
    if isinstance(t, (pdx.DatetimeIndex, list, np.ndarray)):
        return arr.array([f(x) for x in t], keep_native=False)
    return f(t)


def num2date(v, units, calendar=None, only_use_cftime_datetimes=True, only_use_python_datetimes=False, **kw):
    k, o = _origin(units)
    wrap = CFTime if only_use_cftime_datetimes else (lambda t: t)
    f = lambda x: wrap(pdx.Timestamp._of(o + pdx.num(x) * k))
    if isinstance(v, np.ndarray) and v.ndim:
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = f(v[i])
        return out
    return f(v)


class Dimension(object):
    def __init__(self, name, n):
        self.name, self.n = name, n or 0
        self.unlimited = n is None

    @property
    def size(self):
        return self.n

    def __len__(self):
        return self.n

    def isunlimited(self):
        return self.unlimited


class Variable(object):
    def __init__(self, ds, name, dtype, dims):
        self.__dict__.update(ds=ds, name=name, dtype=dtype, dimensions=dims, attrs={}, data={})

    def __setattr__(self, k, v):
        self._ok(True)
        self.attrs[k] = v

    def __getattr__(self, k):
        try:
            return self.__dict__['attrs'][k]
        except KeyError:
            raise AttributeError(k)

    def setncattr(self, k, v):
        setattr(self, k, v)

    def getncattr(self, k):
        return getattr(self, k)

    @property
    def shape(self):
        return tuple(self.ds.dimensions[d].n for d in self.dimensions)

    @property
    def ndim(self):
        return len(self.dimensions)

    @property
    def size(self):
        r = 1
        for n in self.shape:
            r *= n
        return r

    def __len__(self):
        return self.shape[0]

    def _ok(self, write=False):
        if not self.ds.open:
            raise RuntimeError('NetCDF: Not a valid ID')
        if write and self.ds.mode == 'r':
            raise RuntimeError('NetCDF: Write to read only')

    def _key(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(x is Ellipsis for x in k):
            i = [x is Ellipsis for x in k].index(True)
            k = k[:i] + (slice(None),) * (self.ndim - len(k) + 1) + k[i + 1:]
        k = k + (slice(None),) * (self.ndim - len(k))
        if len(k) != self.ndim:
            raise IndexError('too many indices')
        return k

    def _ix(self, k, n, grow):
        """(indices, dropped) for one axis."""
        if isinstance(k, slice):
            f = lambda v: None if v is None else v.__index__()
            return list(range(*slice(f(k.start), f(k.stop), f(k.step)).indices(n))), False
        if isinstance(k, (np.ndarray, list)) and np.ndim(k) > 0:
            p = pdx._positions(k, n)
            return p, False
        i = k.__index__() if not isinstance(k, np.ndarray) else int(k)
        if i < 0:
            i += n
        if i < 0 or i >= n and not grow:
            raise IndexError('index exceeds dimension bounds')
        return [i], True

    def __setitem__(self, key, val):
        self._ok(True)
        ax, shape = [], []
        for d, k in zip(self.dimensions, self._key(key)):
            dim = self.ds.dimensions[d]
            ix, drop = self._ix(k, dim.n, dim.unlimited)
            if dim.unlimited and isinstance(k, slice) and np.ndim(val):
                ix = list(range(k.start or 0, max([dim.n, (k.start or 0) + len(val)])))
            for i in ix:
                if i >= dim.n and dim.unlimited:
                    dim.n = i + 1
            ax.append(ix)
            if not drop:
                shape.append(len(ix))
        if isinstance(val, pdx.Series):
            val = val.values
        v = np.asarray(arr.to_obj(val))
        if v.size == 1 and not shape:
            v = v.reshape(())
        elif v.ndim == 0 or v.shape == tuple(shape):
            pass
        else:
            v = v.reshape([n for n in v.shape if n != 1])
            if v.shape != tuple(n for n in shape if n != 1):
                raise ValueError('cannot fill %s with shape %s' % (shape, v.shape))
            v = v.reshape(shape)
        v = np.broadcast_to(v, shape).reshape(-1)
        flat = 0
        for pos in _product(ax):
            self.data[pos] = self._cast(v[flat] if v.size else v)
            flat += 1

    def _cast(self, x):
        if self.integer():
            if isinstance(x, (bool, np.bool_)):
                return lift(int(x))
            if isinstance(x, SymBool):
                return core.ite(x, lift(1), lift(0))
            x = lift(x)
            return core.ite(x >= 0, core.whole(x), -core.whole(-x))
        x = arr.norm(x) if not isinstance(x, (bool, np.bool_)) else lift(int(x))
        if self.single() and isinstance(x, Sym) and x.c is not None:
            return lift(Fraction(float(np.float32(float(x.c)))))
        x = self._quantise(x)
        if self.single() and ' since ' in str(self.attrs.get('units', '')) and isinstance(x, Sym):
            return self._round(x)
        return x

    def _quantise(self, x):
        d = self.__dict__.get('digits')
        if d is None or not isinstance(x, Sym) or x.c is not None and not isinstance(x.c, Fraction):
            return x
        k = lift(2 ** int(np.ceil(np.log2(10.0 ** d))) if d > 0 else Fraction(2) ** int(np.ceil(np.log2(10.0 ** d))))
        return core.whole(x * k + Fraction(1, 2)) / k

    def _round(self, x):
        """To 24 bits, for magnitudes where that matters to a time."""
        r = x
        for b in range(12, 34):
            step = Fraction(2) ** (b - 23)
            y = core.whole(x / step + Fraction(1, 2)) * step
            r = core.ite(core.band(core.smax(x, -x) >= 2 ** b), y, r)
        return r

    def integer(self):
        try:
            return np.dtype(self.dtype).kind in 'iu'
        except TypeError:
            return False

    def single(self):
        if self.dtype is npx.SymSingle:
            return True
        try:
            return np.dtype(self.dtype) == np.float32
        except TypeError:
            return False

    def __getitem__(self, key):
        self._ok()
        ax, shape = [], []
        for d, k in zip(self.dimensions, self._key(key)):
            ix, drop = self._ix(k, self.ds.dimensions[d].n, False)
            ax.append(ix)
            if not drop:
                shape.append(len(ix))
        vals = [self.data.get(p, MASKED) for p in _product(ax)]
        out = np.empty(tuple(shape), dtype=object)
        for i, p in zip(np.ndindex(*shape), vals):
            out[i] = p
        return out.view(arr.SingleArray if self.single() else arr.SymArray)


def _product(ax):
    if not ax:
        return [()]
    return [(i,) + r for i in ax[0] for r in _product(ax[1:])]


class Dataset(object):
    def __init__(self, fs, path, mode='r', format=None, **kw):
        self.__dict__.update(fs=fs, path=path, mode=mode, open=True, attrs={}, dimensions={}, variables={})
        if mode == 'w':
            fs.log.append(('create', path))
            fs.files[path] = self
        elif path not in fs.files:
            raise FileNotFoundError(path)
        else:
            src = fs.files[path]
            if not isinstance(src, Dataset):
                raise OSError('NetCDF: Unknown file format')
            self.__dict__.update(attrs=src.attrs, dimensions=src.dimensions)
            vs = {}
            for k, v in src.variables.items():
                w = Variable.__new__(Variable)
                w.__dict__.update(v.__dict__)
                w.__dict__['ds'] = self
                vs[k] = w
            self.__dict__['variables'] = vs

    def __setattr__(self, k, v):
        if self.mode == 'r':
            raise RuntimeError('NetCDF: Write to read only')
        self.attrs[k] = v

    def __getattr__(self, k):
        try:
            return self.__dict__['attrs'][k]
        except KeyError:
            raise AttributeError(k)

    def setncattr(self, k, v):
        setattr(self, k, v)

    def getncattr(self, k):
        return getattr(self, k)

    def ncattrs(self):
        return list(self.attrs)

    def __getitem__(self, k):
        return self.variables[k]

    def createDimension(self, name, size=None):
        if name in self.dimensions:
            raise RuntimeError('NetCDF: String match to name in use')
        d = self.dimensions[name] = Dimension(name, size)
        return d

    def createVariable(self, name, dtype, dimensions=(), **kw):
        if isinstance(dimensions, str):
            dimensions = (dimensions,)
        for d in dimensions:
            if d not in self.dimensions:
                raise ValueError('cannot find dimension %s' % d)
        if name in self.variables:
            raise RuntimeError('NetCDF: String match to name in use')
        v = self.variables[name] = Variable(self, name, dtype, tuple(dimensions))
        v.__dict__['digits'] = kw.get('least_significant_digit')
        return v

    def close(self):
        if not self.open:
            raise RuntimeError('NetCDF: Not a valid ID')
        self.__dict__['open'] = False

    def sync(self):
        pass

    def isopen(self):
        return self.open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.open:
            self.close()
        return False


class FileSystem(object):
    """Files by name, and everything done to them."""

    def __init__(self):
        self.files, self.log = {}, []

    def netcdf(self):
        m = types.ModuleType('netCDF4')
        m.Dataset = lambda path, mode='r', *a, **k: Dataset(self, path, mode, **k)
        m.date2num, m.num2date = date2num, num2date
        return m

    def os(self):
        m = types.ModuleType('os')
        p = types.ModuleType('os.path')
        for k in ('join', 'split', 'splitext', 'basename', 'dirname', 'sep', 'isabs', 'normpath', 'abspath'):
            setattr(p, k, getattr(_os.path, k))
        p.isfile = p.exists = p.lexists = lambda f: f in self.files
        p.isdir = lambda f: False

        def remove(f):
            if f not in self.files:
                raise FileNotFoundError(f)
            self.log.append(('remove', f))
            del self.files[f]

        def rename(a, b):
            if a not in self.files:
                raise FileNotFoundError(a)
            self.log.append(('rename', a, b))
            self.files[b] = self.files.pop(a)
        m.path, m.remove, m.unlink, m.rename, m.replace = p, remove, remove, rename, rename
        m.strerror, m.sep, m.environ = _os.strerror, _os.sep, {}
        m.getcwd = lambda: '/'
        return m
