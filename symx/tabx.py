"""Tables and columns as a script on records uses them (pandas read_table/read_csv, DataFrame, Series), on symbolic values.

Every record keeps its place: only what works row by row is here; anything else raises Unsupported or AttributeError.
"""
import types
import numpy as np
from . import core, arr, npx, pdx, funcs
from .core import Unsupported, Sym, SymBool, NAN

num = pdx.num


def _vals(x, n):
    """n values from a column, array, list or single value."""
    if isinstance(x, Column):
        x = x.v
    elif isinstance(x, pdx.DatetimeIndex):
        x = x.t
    elif hasattr(x, '__symarray__'):
        x = x.__symarray__()
    if isinstance(x, np.ndarray) and x.ndim > 0:
        x = list(np.asarray(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        if len(x) != n:
            raise ValueError('Length of values does not match length of index')
        return [_norm(v) for v in x]
    return [_norm(x)] * n


def _norm(v):
    if isinstance(v, (pdx.Timestamp, pdx.Timedelta, str, bool, np.bool_, SymBool)):
        return v
    return num(v)


class Column(object):
    __hash__ = None

    def __init__(self, v, index=None, name=None):
        self.v = list(v)
        self.index = index
        self.name = name

    def _new(self, v):
        return Column(v, self.index, self.name)

    def __symarray__(self):
        return pdx._bools(self.v) if self.v and isinstance(self.v[0], (bool, np.bool_, SymBool)) else arr.array(list(self.v), keep_native=False)

    @property
    def values(self):
        return self.__symarray__()

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def size(self):
        return len(self.v)

    @property
    def shape(self):
        return (len(self.v),)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def _bin(self, o, f):
        b = _vals(o, len(self.v))
        return self._new([f(x, y) for x, y in zip(self.v, b)])

    __array_ufunc__ = None

    def _make(self, index, cols):
        return self._new(cols[None])

    def map(self, f):
        if not callable(f):
            raise Unsupported('map')
        return self._new([_norm(f(x)) for x in self.v])

    apply = map

    def astype(self, t):
        if t in (bool, 'bool'):
            return self._new([x if isinstance(x, (bool, SymBool)) else x != 0 for x in self.v])
        if t in (float, 'float', 'float64', np.float64) or t is npx.SymFloat:
            return self._new([num(x) if not isinstance(x, SymBool) else x.num() for x in self.v])
        raise Unsupported('astype')

    def where(self, cond, other=NAN):
        c, o = _vals(cond, len(self.v)), _vals(other, len(self.v))
        return self._new([x if bool(k) else y for k, x, y in zip(c, self.v, o)])

    def mask(self, cond, other=NAN):
        return self.where([core.bnot(c) if isinstance(c, SymBool) else not c for c in _vals(cond, len(self.v))], other)

    def clip(self, lower=None, upper=None):
        r = self
        if lower is not None:
            r = r._bin(lower, lambda a, b: core.smax(a, b))
        if upper is not None:
            r = r._bin(upper, lambda a, b: core.smin(a, b))
        return r

    def abs(self):
        return self._new([abs(x) for x in self.v])

    __abs__ = abs

    def copy(self):
        return self._new(self.v)

    def __neg__(self):
        return self._new([-x for x in self.v])

    def __invert__(self):
        return self._new([core.bnot(x) if isinstance(x, SymBool) else not x for x in self.v])

    def __getitem__(self, k):
        if isinstance(k, Column):
            raise Unsupported('selecting records')
        return self.v[k]

    def __setitem__(self, k, x):
        if not isinstance(k, (Column, np.ndarray)):
            self.v[k.__index__()] = _norm(x)
            return
        _assign(self.v, k, x)

    @property
    def loc(self):
        return self


def _op(name, f):
    def m(self, o):
        return self._bin(o, f)

    def r(self, o):
        return self._bin(o, lambda a, b: f(b, a))
    setattr(Column, '__%s__' % name, m)
    if name not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(Column, '__r%s__' % name, r)


def _logic(f, g):
    def h(a, b):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return f(a, b)
        return g(bool(a), bool(b))
    return h


def _eq(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a == b if isinstance(a, SymBool) else b == a
    return a == b


for _n, _f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, truediv=lambda a, b: a / b,
                   mod=lambda a, b: a % b, floordiv=lambda a, b: a // b, pow=lambda a, b: funcs.power(core.lift(a), core.lift(b)),
                   lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b, eq=_eq,
                   ne=lambda a, b: core.bnot(_eq(a, b)) if isinstance(_eq(a, b), SymBool) else not _eq(a, b),
                   **{'and': _logic(core.band, lambda a, b: a and b), 'or': _logic(core.bor, lambda a, b: a or b)}).items():
    _op(_n, _f)


def _assign(v, mask, x):
    """v[mask] = x, in place."""
    m = _vals(mask, len(v))
    if not all(isinstance(c, (bool, np.bool_, SymBool)) for c in m):
        raise Unsupported('assigning by position')
    if isinstance(x, (Column, np.ndarray, list)):
        if not isinstance(x, Column):
            raise Unsupported('assigning a list to selected records')
    y = _vals(x, len(v))
    for i, c in enumerate(m):
        v[i] = y[i] if bool(c) else v[i]


class _Loc(object):
    def __init__(self, s, byname):
        self.s, self.byname = s, byname

    def _cols(self, k):
        names = list(self.s.cols)
        if self.byname:
            if isinstance(k, str):
                return k
            if isinstance(k, slice):
                a = 0 if k.start is None else names.index(k.start)
                b = len(names) if k.stop is None else names.index(k.stop) + 1
                return names[a:b]
            return list(k)
        if isinstance(k, (slice, list, np.ndarray, range)):
            return list(np.array(names, dtype=object)[k])
        return names[k]

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            raise Unsupported('selecting records')
        rows, cols = k
        if isinstance(rows, slice) and rows == slice(None):
            return self.s[self._cols(cols)]
        raise Unsupported('selecting records')

    def __setitem__(self, k, x):
        rows, cols = k if isinstance(k, tuple) else (k, slice(None))
        cols = self._cols(cols)
        for c in [cols] if isinstance(cols, str) else cols:
            if isinstance(rows, slice) and rows == slice(None):
                self.s[c] = x
            else:
                if c not in self.s.cols:
                    self.s.cols[c] = [NAN] * len(self.s)
                _assign(self.s.cols[c], rows, x)


class Sheet(object):
    __hash__ = None

    def __init__(self, data=None, index=None, columns=None, **k):
        if isinstance(data, Sheet):
            data, index = data.cols, data.index if index is None else index
        if k or data is not None and not isinstance(data, dict):
            raise Unsupported('DataFrame')
        n = len(index) if index is not None else None
        for v in (data or {}).values():
            if n is None and isinstance(v, (Column, list, np.ndarray)):
                n = len(v)
        if index is None:
            index = next((v.index for v in (data or {}).values() if isinstance(v, Column) and v.index is not None), None)
        d = self.__dict__
        d['index'] = range(n or 0) if index is None else index
        d['cols'] = {c: _vals(v, n) for c, v in (data or {}).items()}
        if columns is not None:
            d['cols'] = {c: d['cols'][c] for c in columns}

    def __len__(self):
        return len(self.index)

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (len(self), len(self.cols))

    def __getattr__(self, k):
        if k != 'cols' and k in self.__dict__.get('cols', {}):
            return self[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k == 'columns':
            v = list(v)
            if len(v) != len(self.cols):
                raise ValueError('Length mismatch')
            self.__dict__['cols'] = dict(zip(v, self.cols.values()))
        elif k == 'index':
            self.__dict__['index'] = _index(v)
        elif k in self.cols:
            self[k] = v
        else:
            self.__dict__[k] = v

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            c = Column([], self.index, k)
            c.v = self.cols[k]
            return c
        if isinstance(k, list) and all(isinstance(x, str) for x in k):
            return Sheet({x: list(self.cols[x]) for x in k}, self.index)
        raise Unsupported('selecting records')

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported('setting several columns')
        self.cols[k] = _vals(v, len(self))

    def __contains__(self, k):
        return k in self.cols

    def __iter__(self):
        return iter(list(self.cols))

    @property
    def loc(self):
        return _Loc(self, True)

    @property
    def iloc(self):
        return _Loc(self, False)

    def copy(self, *a, **k):
        return Sheet(dict(self.cols), self.index)

    def assign(self, **k):
        r = self.copy()
        for c, v in k.items():
            r[c] = v(r) if callable(v) else v
        return r

    def rename(self, columns=None, inplace=False, **k):
        if k or columns is None:
            raise Unsupported('rename')
        f = columns if callable(columns) else lambda c: columns.get(c, c)
        r = Sheet({f(c): v for c, v in self.cols.items()}, self.index)
        if inplace:
            self.__dict__.update(cols=r.cols)
            return None
        return r

    def drop(self, columns=None, axis=None, labels=None, inplace=False):
        c = columns if columns is not None else labels
        c = [c] if isinstance(c, str) else list(c)
        r = Sheet({k: v for k, v in self.cols.items() if k not in c}, self.index)
        if inplace:
            self.__dict__.update(cols=r.cols)
            return None
        return r

    def set_index(self, k, drop=True, inplace=False):
        t = self.cols[k] if isinstance(k, str) else _vals(k, len(self))
        r = Sheet({c: v for c, v in self.cols.items() if not (drop and isinstance(k, str) and c == k)}, _index(t))
        if inplace:
            self.__dict__.update(cols=r.cols, index=r.index)
            return None
        return r

    def to_csv(self, path=None, **k):
        WROTE.append((path, k, self))


WROTE = []


def _index(t):
    if isinstance(t, (range, pdx.DatetimeIndex)):
        return t
    t = t.v if isinstance(t, Column) else list(t)
    if all(isinstance(x, pdx.Timestamp) for x in t):
        return pdx.DatetimeIndex(t)
    raise Unsupported('index')


PART = {'year': 'y', 'month': 'm', 'day': 'd', 'hour': 3600, 'minute': 60, 'second': 1}


def to_datetime(x, **k):
    if isinstance(x, dict):
        x = Sheet(x)
    if isinstance(x, Column):
        if all(isinstance(v, pdx.Timestamp) for v in x.v):
            return x
        raise Unsupported('to_datetime of a column')
    if not isinstance(x, Sheet):
        return pdx.to_datetime(x, **k)
    part = {}
    for c in x.cols:
        p = c.lower()
        p = p if p in PART else p[:-1]
        if p not in PART:
            raise ValueError('extra keys have been passed to the datetime assemblage: [%s]' % c)
        part[p] = x.cols[c]
    if not {'year', 'month', 'day'} <= set(part):
        raise ValueError('to assemble mappings requires at least that [year, month, day] be specified')
    out = []
    for i in range(len(x)):
        d = []
        for p in ('year', 'month', 'day'):
            v = num(part[p][i])
            if isinstance(v, float) or v.c is None:
                raise Unsupported('symbolic date')
            d.append(int(v.c))
        s = pdx.Timestamp(pdx.datetime.datetime(*d)).s
        for p in ('hour', 'minute', 'second'):
            if p in part:
                s = s + num(part[p][i]) * PART[p]
        out.append(pdx.Timestamp._of(s))
    return Column(out, x.index)


def to_timedelta(x, unit=None):
    if isinstance(x, Column):
        return x._new([pdx.Timedelta(v, unit=unit) for v in x.v])
    return pdx.Timedelta(x, unit=unit)


def module(read):
    """`pandas` for a script reading one text file: read(kwargs) gives the table."""
    m = pdx.module()
    m.DataFrame, m.Series = Sheet, lambda v=None, index=None, name=None, **k: Column(_vals(v, len(v)), index, name)
    m.to_datetime, m.to_timedelta = to_datetime, to_timedelta
    m.read_table = m.read_csv = read
    return m
