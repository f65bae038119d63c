"""The `pandas` seen by the code under symbolic execution: timestamps, time
differences, time-indexed series and tables on symbolic seconds and values.

Times are seconds since REF (2020-01-01).  Only what the target uses is here;
anything else raises AttributeError, which the driver reports as unsupported.
"""
import datetime
import re
import types
from fractions import Fraction
import numpy as np
from . import core, arr, npx
from .core import Sym, SymBool, lift, Unsupported, NAN

REF = datetime.datetime(2020, 1, 1)


def num(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    return lift(arr.norm(x))


class Timedelta(object):
    __hash__ = None
    _UNIT = {'W': 604800, 'D': 86400, 'd': 86400, 'days': 86400, 'h': 3600, 'H': 3600, 'hours': 3600, 'm': 60, 'min': 60,
             'T': 60, 'minutes': 60, 's': 1, 'S': 1, 'seconds': 1, 'ms': Fraction(1, 1000), 'us': Fraction(1, 10**6),
             'ns': Fraction(1, 10**9)}

    def __init__(self, value=None, unit=None, weeks=0, days=0, hours=0, minutes=0, seconds=0, milliseconds=0, microseconds=0):
        if isinstance(value, Timedelta):
            self.s = value.s
            return
        if isinstance(value, datetime.timedelta):
            self.s = lift(Fraction(value // datetime.timedelta(microseconds=1), 10**6))
            return
        s = lift(0)
        if value is not None:
            if isinstance(value, str):
                s = lift(_seconds(value))
            else:
                s = num(value) * lift(self._UNIT[unit or 'ns'])
        for v, u in ((weeks, 604800), (days, 86400), (hours, 3600), (minutes, 60), (seconds, 1),
                     (milliseconds, Fraction(1, 1000)), (microseconds, Fraction(1, 10**6))):
            if not (isinstance(v, int) and v == 0):
                s = s + num(v) * lift(u)
        if isinstance(s, float):
            raise ValueError('cannot convert float NaN to Timedelta') if s != s else OverflowError('Timedelta')
        self.s = s

    def total_seconds(self):
        return self.s

    @property
    def days(self):
        return core.floor(self.s / 86400)

    @property
    def seconds(self):
        return core.floor(self.s - 86400 * self.days)

    @property
    def microseconds(self):
        return core.floor((self.s - core.floor(self.s)) * 10**6)

    @property
    def value(self):
        return self.s * 10**9

    def __add__(self, o):
        if isinstance(o, Timestamp):
            return Timestamp._of(self.s + o.s)
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return _td(self.s + Timedelta(o).s)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return _td(self.s - Timedelta(o).s)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, datetime.timedelta):
            return Timedelta(o) - self
        return NotImplemented

    def __neg__(self):
        return _td(-self.s)

    def __abs__(self):
        return _td(abs(self.s))

    def __mul__(self, o):
        return _td(self.s * num(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return self.s / Timedelta(o).s
        return _td(self.s / num(o))

    def __floordiv__(self, o):
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return core.floor(self.s / Timedelta(o).s)
        return _td(self.s / num(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __mod__(self, o):
        o = Timedelta(o)
        return _td(self.s - core.floor(self.s / o.s) * o.s)

    def _c(self, o):
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return Timedelta(o).s
        return None

    def __lt__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s < o

    def __le__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s <= o

    def __gt__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s > o

    def __ge__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s >= o

    def __eq__(self, o):
        o = self._c(o)
        return False if o is None else self.s == o

    def __ne__(self, o):
        o = self._c(o)
        return True if o is None else self.s != o

    def __bool__(self):
        return bool(self.s != 0)


def _seconds(text):
    """Seconds of a length of time written as text: '1H', '30 min', '1 days 02:00:00'."""
    text = text.strip()
    sign, rest = (-1, text[1:]) if text.startswith('-') else (1, text)
    total, n = Fraction(0), 0
    m = re.search(r'(\d+):(\d+):(\d+(?:\.\d+)?)\s*$', rest)
    if m:
        total += 3600 * int(m.group(1)) + 60 * int(m.group(2)) + Fraction(m.group(3))
        rest, n = rest[:m.start()], 1
    while rest.strip():
        m = re.match(r'\s*(\d*\.?\d*)\s*([A-Za-z]+)', rest)
        if m is None or m.group(1) in ('', '.') and m.group(2) not in Timedelta._UNIT:
            raise ValueError('cannot parse %r as a length of time' % text)
        u = m.group(2)
        u = u if u in Timedelta._UNIT else {'day': 'D', 'hour': 'h', 'hr': 'h', 'hrs': 'h', 'minute': 'min', 'mins': 'min',
                                            'second': 's', 'sec': 's', 'secs': 's', 'L': 'ms', 'U': 'us', 'N': 'ns'}.get(u, u)
        if u not in Timedelta._UNIT:
            raise ValueError('invalid unit in %r' % text)
        total += Fraction(m.group(1) or 1) * Timedelta._UNIT[u]
        rest, n = rest[m.end():], n + 1
    if not n:
        raise ValueError('cannot parse %r as a length of time' % text)
    return sign * total


def _freq(f):
    """A sampling interval: a Timedelta or a text such as '15min' ('H' alone means one hour)."""
    if isinstance(f, str):
        if f.strip() in ('m', 'M', 'Y', 'Q', 'A', 'B', 'W'):
            raise Unsupported('calendar frequency ' + f)
        return Timedelta(f)
    return Timedelta(f)


def _td(s):
    t = Timedelta.__new__(Timedelta)
    t.s = lift(s)
    return t


class Timestamp(object):
    __hash__ = None

    def __init__(self, value=None, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, year=None):
        if month is not None:
            value = datetime.datetime(*[int(v) for v in (value if year is None else year, month, day, hour, minute, second,
                                                         microsecond)])
        if isinstance(value, Timestamp):
            self.s = value.s
        elif isinstance(value, np.datetime64):
            self.s = Timestamp(value.astype('datetime64[us]').item()).s
        elif type(value) is datetime.date:
            self.s = Timestamp(datetime.datetime(value.year, value.month, value.day)).s
        elif isinstance(value, datetime.datetime):
            self.s = lift(Fraction((value - REF) // datetime.timedelta(microseconds=1), 10**6))
        elif isinstance(value, str):
            self.s = _parse(value)
        elif isinstance(value, DateText):
            self.s = value.guess().s
        else:
            raise Unsupported('Timestamp of %r' % (value,))

    @staticmethod
    def _of(s):
        t = Timestamp.__new__(Timestamp)
        t.s = lift(s)
        return t

    def __add__(self, o):
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return Timestamp._of(self.s + Timedelta(o).s)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (Timestamp, datetime.datetime)):
            return _td(self.s - Timestamp(o).s)
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return Timestamp._of(self.s - Timedelta(o).s)
        return NotImplemented

    def _c(self, o):
        if isinstance(o, (Timestamp, datetime.datetime)):
            return Timestamp(o).s
        return None

    def __lt__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s < o

    def __le__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s <= o

    def __gt__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s > o

    def __ge__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.s >= o

    def __eq__(self, o):
        o = self._c(o)
        return False if o is None else self.s == o

    def __ne__(self, o):
        o = self._c(o)
        return True if o is None else self.s != o

    def strftime(self, fmt):
        """Text of the date (decides the day); a symbolic time of day gives an opaque text."""
        if self.s.c is not None:
            return (REF + datetime.timedelta(microseconds=int(self.s.c * 10**6))).strftime(fmt)
        day = REF + datetime.timedelta(days=core.floor(self.s / 86400))
        if any('%' + c in fmt for c in 'HMSfIpcXT'):
            return Opaque(day.strftime(fmt))
        return day.strftime(fmt)

    def normalize(self):
        return Timestamp._of(core.floor(self.s / 86400) * 86400)

    def floor(self, freq):
        f = _freq(freq).s
        return Timestamp._of(core.floor(self.s / f) * f)

    def ceil(self, freq):
        f = _freq(freq).s
        return Timestamp._of(-core.floor(-self.s / f) * f)

    def to_pydatetime(self):
        return self

    def to_datetime64(self):
        return self

    def timestamp(self):
        return self.s + (REF - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1)

    def _date(self):
        """The calendar day, decided."""
        return REF + datetime.timedelta(days=int(core.floor(self.s / 86400)))

    def date(self):
        return self._date().date()

    year = property(lambda self: self._date().year)
    month = property(lambda self: self._date().month)
    day = property(lambda self: self._date().day)
    dayofyear = property(lambda self: self._date().timetuple().tm_yday)
    hour = property(lambda self: core.floor(self.s / 3600) - 24 * core.floor(self.s / 86400))
    minute = property(lambda self: core.floor(self.s / 60) - 60 * core.floor(self.s / 3600))
    second = property(lambda self: core.floor(self.s) - 60 * core.floor(self.s / 60))

    def isoformat(self, sep='T', timespec='auto'):
        return self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')

    def __format__(self, spec):
        return self.strftime(spec or '%Y-%m-%d %H:%M:%S')

    def __str__(self):
        return self.strftime('%Y-%m-%d %H:%M:%S')

    @property
    def value(self):
        return self.s * 10**9


Timestamp.min = Timestamp(datetime.datetime(1677, 9, 22))
Timestamp.max = Timestamp(datetime.datetime(2262, 4, 11))


class Opaque(str):
    pass


def _parse(text):
    for f in ('%Y-%m-%d %H:%M:%S', '%Y-%m-%d %H:%M', '%Y-%m-%d', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%dT%H:%M', '%Y-%m-%d %H:%M:%S.%f',
              '%Y%m%d', '%Y/%m/%d', '%d %b %Y', '%d %B %Y'):
        try:
            return Timestamp(datetime.datetime.strptime(text, f)).s
        except ValueError:
            pass
    raise ValueError('cannot parse %r as a time' % text)


class TimedeltaIndex(object):
    __hash__ = None

    def __init__(self, t):
        self.t = list(t)

    def __len__(self):
        return len(self.t)

    def __iter__(self):
        return iter(self.t)

    def __abs__(self):
        return TimedeltaIndex([abs(x) for x in self.t])

    def total_seconds(self):
        return findex([x.s for x in self.t])

    def min(self):
        return core_min(self.t)

    def max(self):
        return -core_min([-x for x in self.t])

    def argmin(self):
        return npx.argmin(arr.array([x.s for x in self.t]))

    def argmax(self):
        return npx.argmax(arr.array([x.s for x in self.t]))

    def __neg__(self):
        return TimedeltaIndex([-x for x in self.t])

    @property
    def size(self):
        return len(self.t)

    @property
    def values(self):
        return arr.array([x.s * 10**9 for x in self.t], keep_native=False)

    def to_list(self):
        return list(self.t)

    tolist = to_list

    def __truediv__(self, o):
        if isinstance(o, Timedelta):
            return findex([x / o for x in self.t])
        return TimedeltaIndex([x / o for x in self.t])

    def __getitem__(self, k):
        return _getitem(self, k, self.t, TimedeltaIndex)

    def _cmp(self, o, f):
        os = list(o) if isinstance(o, (TimedeltaIndex, list)) else [Timedelta(o) if isinstance(o, str) else o] * len(self.t)
        return _bools([f(a, b) for a, b in zip(self.t, os)])

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)


def core_min(ts):
    m = ts[0]
    for x in ts[1:]:
        if bool(x < m):
            m = x
    return m


def _bools(xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    if all(isinstance(x, (bool, np.bool_)) for x in xs):
        return o.astype(bool)
    return o.view(arr.SymArray)


class FIndex(arr.SymArray):
    """What total_seconds() of an index gives: values, usable in arithmetic."""

    @property
    def values(self):
        return np.asarray(self).view(arr.SymArray)

    def to_numpy(self):
        return self.values


class BSeries(np.ndarray):
    """Decided answers of a comparison of a Series."""

    @property
    def values(self):
        return np.asarray(self)

    def to_numpy(self):
        return self.values


def _answers(x):
    if isinstance(x, arr.SymArray):
        return x.view(FIndex)
    return np.asarray(x).view(BSeries) if isinstance(x, np.ndarray) else x


def findex(xs):
    return arr.array([num(x) for x in xs], keep_native=False).view(FIndex)


def _positions(k, n):
    """Positions selected by an array, mask or list key."""
    k = arr.norm_key(k) if isinstance(k, np.ndarray) else np.asarray([int(x) if not isinstance(x, (bool, np.bool_, SymBool)) else bool(x) for x in k])
    if isinstance(k, tuple):
        k = k[0]
    k = np.asarray(k)
    if k.dtype == bool:
        if k.size != n:
            raise IndexError('boolean index of the wrong length')
        return [int(i) for i in np.flatnonzero(k)]
    return [int(i) for i in k.reshape(-1)]


def _slice(k, n):
    f = lambda v: None if v is None else v.__index__()
    return range(*slice(f(k.start), f(k.stop), f(k.step)).indices(n))


def _getitem(self, k, items, cls):
    if isinstance(k, slice):
        return cls([items[i] for i in _slice(k, len(items))])
    if isinstance(k, (np.ndarray, list)) and not (isinstance(k, np.ndarray) and k.ndim == 0):
        return cls([items[i] for i in _positions(k, len(items))])
    return items[k.__index__() if not isinstance(k, np.ndarray) else int(k)]


class DatetimeIndex(object):
    __hash__ = None

    def __init__(self, t):
        self.t = [x if isinstance(x, Timestamp) else Timestamp(x) for x in t]

    def __len__(self):
        return len(self.t)

    def __iter__(self):
        return iter(self.t)

    @property
    def size(self):
        return len(self.t)

    @property
    def shape(self):
        return (len(self.t),)

    @property
    def values(self):
        return arr.array([x.s * 10**9 for x in self.t], keep_native=False)

    def to_numpy(self, *a, **k):
        r = np.empty(len(self.t), dtype=object)
        r[:] = self.t
        return r

    def to_list(self):
        return list(self.t)

    tolist = to_list

    def _cmp(self, o, f):
        if isinstance(o, (DatetimeIndex, list)):
            os = list(o)
            if len(os) != len(self.t):
                raise ValueError('Lengths must match to compare')
        else:
            os = [Timestamp(o) if isinstance(o, str) else o] * len(self.t)
        return _bools([f(a, b) for a, b in zip(self.t, os)])

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __sub__(self, o):
        if isinstance(o, (Timestamp, datetime.datetime)):
            return TimedeltaIndex([x - o for x in self.t])
        if isinstance(o, (Timedelta, datetime.timedelta)):
            return DatetimeIndex([x - o for x in self.t])
        if isinstance(o, DatetimeIndex):
            return TimedeltaIndex([x - y for x, y in zip(self.t, o.t)])
        return NotImplemented

    def __rsub__(self, o):
        return TimedeltaIndex([o - x for x in self.t])

    def __add__(self, o):
        if isinstance(o, TimedeltaIndex):
            return DatetimeIndex([x + y for x, y in zip(self.t, o.t)])
        return DatetimeIndex([x + o for x in self.t])

    def __getitem__(self, k):
        return _getitem(self, k, self.t, DatetimeIndex)

    def append(self, o):
        return DatetimeIndex(self.t + list(o))

    def insert(self, k, x):
        return DatetimeIndex(self.t[:k] + [x] + self.t[k:])

    def union(self, o):
        u = DatetimeIndex(self.t + list(o)).unique()
        return DatetimeIndex([u.t[i] for i in npx._order([x.s for x in u.t])])

    def unique(self):
        r = []
        for x in self.t:
            if not any(bool(x == y) for y in r):
                r.append(x)
        return DatetimeIndex(r)

    def duplicated(self):
        return np.array([any(bool(x == y) for y in self.t[:i]) for i, x in enumerate(self.t)], dtype=bool)

    def min(self):
        return core_min(self.t)

    def max(self):
        return [x for x in self.t][npx.argmax(arr.array([x.s for x in self.t]))]

    @property
    def is_monotonic_increasing(self):
        return _increasing(self.t)

    is_monotonic = is_monotonic_increasing

    @property
    def is_unique(self):
        return not self.duplicated().any()

    @property
    def empty(self):
        return not self.t

    def copy(self):
        return DatetimeIndex(self.t)

    def sort_values(self):
        return DatetimeIndex([self.t[i] for i in npx._order([x.s for x in self.t])])

    def view(self, kind=None):
        return arr.array([x.value for x in self.t], keep_native=False)

    def astype(self, kind=None):
        return self.view()

    asi8 = property(view)

    def strftime(self, fmt):
        r = np.empty(len(self.t), dtype=object)
        r[:] = [x.strftime(fmt) for x in self.t]
        return r

    def get_indexer(self, target, method=None):
        if method not in (None, 'nearest', 'pad', 'ffill', 'backfill', 'bfill'):
            raise Unsupported('get_indexer ' + str(method))
        if not _increasing(self.t) and method:
            raise Unsupported('get_indexer of an unsorted index')
        out = []
        for x in DatetimeIndex(list(target)).t:
            lo = self.searchsorted(x, side='right') - 1       # last at or before
            hi = self.searchsorted(x, side='left')            # first at or after
            n = len(self.t)
            if method is None:
                out.append(hi if hi < n and bool(self.t[hi] == x) else -1)
            elif method in ('pad', 'ffill'):
                out.append(lo)
            elif method in ('backfill', 'bfill'):
                out.append(hi if hi < n else -1)
            elif lo < 0 or hi >= n:
                out.append((hi if hi < n else -1) if lo < 0 else lo)
            else:
                out.append(lo if bool(x - self.t[lo] < self.t[hi] - x) else hi)
        return np.array(out, dtype=int)

    def get_loc(self, x, method=None):
        if method is not None:
            k = int(self.get_indexer([x], method)[0])
            if k < 0:
                raise KeyError(x)
            return k
        p = [i for i, y in enumerate(self.t) if bool(x == y)]
        if not p:
            raise KeyError(x)
        if len(p) > 1:
            raise Unsupported('repeated label')
        return p[0]

    def searchsorted(self, x, side='left'):
        if isinstance(x, (DatetimeIndex, list, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0):
            return np.array([self.searchsorted(y, side) for y in x], dtype=int)
        x = Timestamp(x)
        for i, y in enumerate(self.t):
            if bool(y >= x) if side == 'left' else bool(y > x):
                return i
        return len(self.t)

    def to_pydatetime(self):
        o = np.empty(len(self.t), dtype=object)
        for i, x in enumerate(self.t):
            o[i] = x
        return o

    def to_series(self):
        raise Unsupported('to_series')


def _increasing(t):
    return all(bool(a.s <= b.s) for a, b in zip(t, t[1:]))


def _label(k):
    """A key of .loc, with times given as text or datetime made timestamps (a whole day or hour as text is a range in
    pandas: not used here)."""
    if isinstance(k, slice):
        f = lambda v: Timestamp(v) if isinstance(v, (str, datetime.datetime)) else v
        if isinstance(k.stop, str) and not k.stop.count(':') == 2:
            raise Unsupported('range up to a time given as text')
        return slice(f(k.start), f(k.stop), k.step)
    if isinstance(k, datetime.datetime):
        return Timestamp(k)
    if isinstance(k, str):
        if k.count(':') < 1:
            raise Unsupported('time given as text')
        return Timestamp(k)
    return k


class _Loc(object):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        cols = None
        if isinstance(k, tuple):
            k, cols = k
        k = _label(k)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('stepped label slice')
            if not _increasing(o.index.t):
                raise Unsupported('label slice of an unsorted index')
            keep = [i for i, x in enumerate(o.index.t)
                    if (k.start is None or bool(x >= k.start)) and (k.stop is None or bool(x <= k.stop))]
            r = o._take(keep)
        elif isinstance(k, Timestamp):
            r = o._row(o.index.get_loc(k))
        elif isinstance(k, DatetimeIndex) or isinstance(k, list):
            r = o._take([o.index.get_loc(x) for x in k])
        else:
            r = o._take(_positions(k, len(o.index)))
        return r if cols is None or isinstance(cols, slice) and cols == slice(None) else r[cols]


    def __setitem__(self, k, v):
        o = self.o
        cols = list(o.cols)
        if isinstance(k, tuple):
            k, c = k
            if not (isinstance(c, slice) and c == slice(None)):
                cols = list(c) if isinstance(c, list) else [c]
        k = _label(k)
        if isinstance(k, slice):
            keep = [i for i, x in enumerate(o.index.t)
                    if (k.start is None or bool(x >= k.start)) and (k.stop is None or bool(x <= k.stop))]
        elif isinstance(k, Timestamp):
            keep = [o.index.get_loc(k)]
        elif isinstance(k, (DatetimeIndex, list)) and not all(isinstance(x, (bool, np.bool_, core.SymBool)) for x in k):
            keep = [o.index.get_loc(x) for x in k]
        else:
            keep = list(_positions(k, len(o.index)))
        if len(cols) > 1 and (isinstance(v, Series) or np.ndim(v)):
            raise Unsupported('assignment to several columns')
        if isinstance(v, Series):
            if len(v) != len(keep):
                raise Unsupported('assignment that aligns by time')
            v = list(v.values)
        for c in cols:
            if c not in o.cols:
                raise Unsupported('new column by loc')
            x = list(o.cols[c])
            for j, i in enumerate(keep):
                x[i] = num(v[j]) if np.ndim(v) else num(v)
            o.cols[c] = x


class _ILoc(object):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(k, tuple) and len(k) == 2:
            name = list(o.cols)[k[1].__index__()]
            return _ILoc(o._col(name))[k[0]]
        if isinstance(k, slice):
            return o._take(list(_slice(k, len(o.index))))
        if isinstance(k, (np.ndarray, list)):
            return o._take(_positions(k, len(o.index)))
        n = len(o.index)
        k = k.__index__()
        if not -n <= k < n:
            raise IndexError('single positional indexer is out-of-bounds')
        return o._row(k % n)


class _Table(object):
    """Common to Series and DataFrame: `cols` maps a column to a list of values."""
    __hash__ = None

    def _make(self, index, cols):
        raise NotImplementedError

    def _take(self, pos):
        return self._make(DatetimeIndex([self.index.t[i] for i in pos]), {k: [v[i] for i in pos] for k, v in self.cols.items()})

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    def __len__(self):
        return len(self.index)

    def copy(self):
        return self._take(range(len(self.index)))

    def sort_index(self, inplace=False):
        order = npx._order([x.s for x in self.index.t])
        r = self._take(order)
        if inplace:
            self.index, self.cols = r.index, r.cols
            return None
        return r

    def reindex(self, new, method=None):
        new = new if isinstance(new, DatetimeIndex) else DatetimeIndex(new)
        if method is not None:
            pos = [int(i) for i in self.index.get_indexer(new, method)]
            return self._make(new, {k: [NAN if i < 0 else v[i] for i in pos] for k, v in self.cols.items()})
        t = self.index.t
        for i in range(len(t)):
            for j in range(i):
                if bool(t[i] == t[j]):
                    raise ValueError('cannot reindex on an axis with duplicate labels')
        pos = []
        for x in new.t:
            hit = [i for i, y in enumerate(t) if y is x or bool(x == y)]
            pos.append(hit[0] if hit else None)
        return self._make(new, {k: [NAN if i is None else v[i] for i in pos] for k, v in self.cols.items()})

    def append(self, o, **kw):
        if any(kw.values()) or list(o.cols) != list(self.cols):
            raise Unsupported('append')
        return self._make(self.index.append(o.index), {k: v + o.cols[k] for k, v in self.cols.items()})

    def interpolate(self, method='linear', **kw):
        if method not in ('time', 'linear', 'index', 'values') or kw:
            raise Unsupported('interpolate ' + method)
        t = [x.s for x in self.index.t] if method != 'linear' else [lift(i) for i in range(len(self.index))]
        cols = {}
        for k, v in self.cols.items():
            out = list(v)
            known = [i for i, x in enumerate(v) if not isinstance(x, float)]
            for i, x in enumerate(v):
                if not isinstance(x, float):
                    continue
                a = [j for j in known if j < i]
                b = [j for j in known if j > i]
                if a and b:
                    p, q = a[-1], b[0]
                    out[i] = v[p] + (v[q] - v[p]) * (t[i] - t[p]) / (t[q] - t[p])
                elif a:
                    out[i] = v[a[-1]]
            cols[k] = out
        return self._make(self.index, cols)

    @property
    def at(self):
        return self.loc

    @property
    def iat(self):
        return self.iloc

    @property
    def empty(self):
        return not len(self.index)

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def truncate(self, before=None, after=None):
        return self.loc[before:after]

    def drop_duplicates(self):
        raise Unsupported('drop_duplicates')

    def _each(self, f):
        return self._make(self.index, {k: [num(x) for x in f(list(v))] for k, v in self.cols.items()})

    def shift(self, n=1):
        return self._each(lambda v: [v[i - n] if 0 <= i - n < len(v) else NAN for i in range(len(v))])

    def diff(self, n=1):
        return self._each(lambda v: [v[i] - v[i - n] if 0 <= i - n < len(v) else NAN for i in range(len(v))])

    def cumsum(self):
        return self._each(lambda v: list(npx.cumsum(arr.array(v, keep_native=False))) if v else [])

    def fillna(self, value):
        return self._each(lambda v: [value if isinstance(x, float) and x != x else x for x in v])

    def ffill(self):
        def f(v):
            for i in range(1, len(v)):
                if isinstance(v[i], float) and v[i] != v[i]:
                    v[i] = v[i - 1]
            return v
        return self._each(f)

    def abs(self):
        return self._each(lambda v: [abs(x) for x in v])

    def clip(self, lower=None, upper=None):
        def f(x):
            if isinstance(x, float):
                return x
            x = x if lower is None else core.smax(x, num(lower))
            return x if upper is None else core.smin(x, num(upper))
        return self._each(lambda v: [f(x) for x in v])

    def astype(self, kind=None):
        if getattr(kind, '__name__', kind) not in ('float', 'float64', 'double', 'SymFloat'):
            raise Unsupported('astype %r' % (kind,))
        return self.copy()

    def dropna(self):
        return self._take([i for i in range(len(self.index)) if not any(isinstance(v[i], float) for v in self.cols.values())])

    def resample(self, rule):
        return _Resampler(self, _freq(rule))


class _Resampler(object):
    """Bins of a fixed length counted from midnight of the first day."""

    def __init__(self, o, rule):
        self.o, self.rule = o, rule

    def _bins(self):
        o, r = self.o, self.rule.s
        org = o.index.min().normalize().s
        k = [core.floor((x.s - org) / r) for x in o.index.t]
        return org, k

    def _agg(self, fn):
        o, r = self.o, self.rule.s
        org, k = self._bins()
        ks = range(min(k), max(k) + 1)
        cols = {}
        for c, v in o.cols.items():
            out = []
            for b in ks:
                xs = [x for x, kk in zip(v, k) if kk == b and not isinstance(x, float)]
                out.append(fn(xs) if xs else NAN)
            cols[c] = out
        return o._make(DatetimeIndex([Timestamp._of(org + b * r) for b in ks]), cols)

    def asfreq(self):
        o, r = self.o, self.rule.s
        org, k = self._bins()
        return o.reindex(DatetimeIndex([Timestamp._of(org + b * r) for b in range(min(k), max(k) + 1)]))

    def interpolate(self, method='linear'):
        return self.asfreq().interpolate(method)

    def mean(self):
        return self._agg(lambda xs: sum(xs[1:], xs[0]) / len(xs))

    def sum(self):
        return self._agg(lambda xs: sum(xs[1:], xs[0]))

    def first(self):
        return self._agg(lambda xs: xs[0])

    def last(self):
        return self._agg(lambda xs: xs[-1])

    def max(self):
        return self._agg(lambda xs: core.smax(*xs))

    def min(self):
        return self._agg(lambda xs: core.smin(*xs))


class Series(_Table):
    def __init__(self, data, index=None, name=None):
        if isinstance(data, Series):
            index = data.index if index is None else index
            data = data.cols[None]
        vals = list(np.asarray(data).reshape(-1)) if isinstance(data, np.ndarray) else list(data)
        if index is None:
            raise Unsupported('Series without times')
        self.index = index if isinstance(index, DatetimeIndex) else DatetimeIndex(index)
        if len(vals) != len(self.index):
            raise ValueError('Length of values does not match length of index')
        self.cols = {None: [num(v) for v in vals]}
        self.name = name

    def _make(self, index, cols):
        s = Series.__new__(Series)
        s.index, s.cols, s.name = index, {k: list(v) for k, v in cols.items()}, self.name
        return s

    def _row(self, i):
        return self.cols[None][i]

    @property
    def v(self):
        return self.cols[None]

    @property
    def values(self):
        return arr.array(list(self.v), keep_native=False) if self.v else npx.zeros(0)

    def to_numpy(self):
        return self.values

    def __symarray__(self):
        return self.values

    def __iter__(self):
        return iter(self.v)

    @property
    def size(self):
        return len(self.v)

    @property
    def shape(self):
        return (len(self.v),)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if isinstance(k.start, (Timestamp, str)) or isinstance(k.stop, (Timestamp, str)):
                return self.loc[k]
            return self._take(list(_slice(k, len(self.v))))
        if isinstance(k, (Timestamp, str, datetime.datetime)):
            return self.loc[k]
        if isinstance(k, (np.ndarray, list)) and not (isinstance(k, np.ndarray) and k.ndim == 0):
            return self._take(_positions(k, len(self.v)))
        if isinstance(k, DatetimeIndex):
            return self.loc[k]
        return self.iloc[k]

    def __setitem__(self, k, x):
        if isinstance(k, Timestamp):
            k = self.index.get_loc(k)
        self.v[k.__index__()] = num(x)

    def _bin(self, o, f):
        if isinstance(o, Series):
            o = o.values
        return self._make(self.index, {None: list(f(self.values, o).reshape(-1))})

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: a // b)

    def __pow__(self, o):
        return self._bin(o, lambda a, b: a ** b)

    def __neg__(self):
        return self._bin(0, lambda a, b: -a)

    def __abs__(self):
        return self._bin(0, lambda a, b: abs(a))

    def _cmp(self, o, f):
        return _answers(f(self.values, o.values if isinstance(o, Series) else o))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def map_values(self, f):
        return self._make(self.index, {None: [num(f(x)) for x in self.v]})

    map = map_values
    apply = map_values
    lt, le, gt, ge, eq, ne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__
    add, sub, mul, div, truediv, pow, mod = (__add__, __sub__, __mul__, __truediv__, __truediv__, __pow__, __mod__)

    def items(self):
        return iter(list(zip(self.index.t, self.v)))

    iteritems = items

    def tolist(self):
        return list(self.v)

    to_list = tolist

    def isna(self):
        return np.array([isinstance(x, float) and x != x for x in self.v], dtype=bool).view(BSeries)

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def where(self, cond, other=NAN):
        o = other.v if isinstance(other, Series) else [other] * len(self.v)
        return self._make(self.index, {None: [num(x if bool(c) else y) for x, c, y in zip(self.v, cond, o)]})

    def mask(self, cond, other=NAN):
        return self.where([not bool(c) for c in cond], other)

    def rename(self, name=None):
        r = self.copy()
        r.name = name
        return r

    def to_frame(self, name=None):
        return DataFrame({self.name if name is None else name: list(self.v)}, index=self.index)

    def asof(self, t):
        k = int(self.index.get_indexer([t], 'pad')[0])
        return NAN if k < 0 else self.v[k]

    def sum(self):
        return sum((x for x in self.v if not isinstance(x, float)), lift(0))

    def idxmin(self):
        return self.index.t[npx.argmin(self.values)]

    def idxmax(self):
        return self.index.t[npx.argmax(self.values)]

    @property
    def T(self):
        return self

    @property
    def is_monotonic_increasing(self):
        return all(bool(a <= b) for a, b in zip(self.v, self.v[1:]))

    def mean(self):
        return sum(self.v[1:], self.v[0]) / len(self.v)

    def min(self):
        return core.smin(*self.v)

    def max(self):
        return core.smax(*self.v)


class Row(object):
    """A row of a table: values by position, by column name and as attributes."""
    __hash__ = None

    def __init__(self, pairs):
        self._p = list(pairs)

    def __iter__(self):
        return iter([v for _, v in self._p])

    def __len__(self):
        return len(self._p)

    @property
    def values(self):
        return arr.array([v for _, v in self._p], keep_native=False)

    def __symarray__(self):
        return self.values

    def __getitem__(self, k):
        if isinstance(k, str):
            for n, v in self._p:
                if n == k:
                    return v
            raise KeyError(k)
        return self._p[k.__index__()][1]

    def __getattr__(self, k):
        for n, v in self._p:
            if n == k:
                return v
        raise AttributeError(k)


class DataFrame(_Table):
    def __init__(self, data=None, index=None, columns=None):
        if isinstance(data, (list, tuple)) and columns is not None and all(isinstance(r, (list, tuple)) for r in data):
            data = {c: [r[j] for r in data] for j, c in enumerate(columns)}
        if not isinstance(data, dict):
            raise Unsupported('DataFrame of %s' % type(data).__name__)
        if index is None:
            index = next((v.index for v in data.values() if isinstance(v, Series)), None)
            if index is None:
                raise Unsupported('DataFrame without times')
        object.__setattr__(self, 'index', index if isinstance(index, DatetimeIndex) else DatetimeIndex(index))
        object.__setattr__(self, 'cols', {k: [num(x) for x in v] for k, v in data.items()})

    def _make(self, index, cols):
        d = DataFrame.__new__(DataFrame)
        object.__setattr__(d, 'index', index)
        object.__setattr__(d, 'cols', {k: list(v) for k, v in cols.items()})
        return d

    def _row(self, i):
        return Row((k, v[i]) for k, v in self.cols.items())

    def iterrows(self):
        return iter([(t, self._row(i)) for i, t in enumerate(self.index.t)])

    def itertuples(self, index=True, name='Pandas'):
        if not index:
            return iter([Row((k, v[i]) for k, v in self.cols.items()) for i in range(len(self.index))])
        return iter([Row([('Index', t)] + [(k, v[i]) for k, v in self.cols.items()]) for i, t in enumerate(self.index.t)])

    def items(self):
        return iter([(k, self._col(k)) for k in self.cols])

    def mean(self):
        return Row([(k, self._col(k).mean()) for k in self.cols])

    def min(self):
        return Row([(k, self._col(k).min()) for k in self.cols])

    def max(self):
        return Row([(k, self._col(k).max()) for k in self.cols])

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def rename(self, columns=None):
        return self._make(self.index, {columns.get(k, k): v for k, v in self.cols.items()})

    def to_numpy(self):
        return self.values

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (len(self.index), len(self.cols))

    def _col(self, k):
        s = Series.__new__(Series)
        s.index, s.cols, s.name = self.index, {None: self.cols[k]}, k
        return s

    def __getattr__(self, k):
        if k != 'cols' and k in self.cols:
            return self._col(k)
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in self.cols:
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    def __setitem__(self, k, v):
        self.cols[k] = [num(x) for x in (v.v if isinstance(v, Series) else v)]

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._col(k)
        if isinstance(k, list) and all(isinstance(x, str) for x in k):
            return self._make(self.index, {x: self.cols[x] for x in k})
        if isinstance(k, slice):
            if isinstance(k.start, Timestamp) or isinstance(k.stop, Timestamp):
                return self.loc[k]
            return self._take(list(_slice(k, len(self.index))))
        return self._take(_positions(k, len(self.index)))

    @property
    def values(self):
        return arr.array([[self.cols[k][i] for k in self.cols] for i in range(len(self.index))], keep_native=False)


def date_range(start=None, end=None, periods=None, freq=None, closed=None, inclusive=None):
    if freq is None or start is None:
        raise Unsupported('date_range without start or frequency')
    inc = inclusive or {None: 'both', 'left': 'left', 'right': 'right'}[closed]
    freq = _freq(freq)
    start = Timestamp(start)
    end = None if end is None else Timestamp(end)
    if not bool(freq > Timedelta(0)):
        raise ValueError('frequency must be positive')
    out, k = [], 0
    while True:
        t = Timestamp._of(start.s + freq.s * k)
        if periods is not None and k >= periods:
            break
        if end is not None and bool(t > end):
            break
        if not (inc in ('right', 'neither') and k == 0) and not (inc in ('left', 'neither') and end is not None and bool(t == end)):
            out.append(t)
        k += 1
        if k > 200:
            raise Unsupported('date_range too long')
    return DatetimeIndex(out)


class DateText(object):
    """A time written day/month/year hour:minute; the parts are symbolic integers."""
    __hash__ = None
    BEFORE = (0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335)     # days before each month of a leap year

    def __init__(self, day, month, year, hour, minute):
        self.parts = [day, '/', month, '/', year, ' ', hour, ':', minute]

    @classmethod
    def seconds(cls, day, month, year, hour, minute):
        if year != REF.year:
            raise Unsupported('another year')
        if not isinstance(month, int):
            if bool(month < 1) or bool(month > 12):
                raise ValueError('month must be in 1..12')
            for m in range(1, 13):
                if m == 12 or bool(month == m):
                    month = m
                    break
        return ((cls.BEFORE[month - 1] + day - 1) * 24 + hour) * 3600 + lift(minute) * 60

    def strptime(self, f):
        want, i = [], 0
        while i < len(f):
            want.append(f[i:i + 2] if f[i] == '%' else f[i])
            i += len(want[-1])
        if len(want) != len(self.parts):
            raise ValueError('time data does not match format %r' % f)
        d = {}
        for w, p in zip(want, self.parts):
            if w[0] != '%':
                if w != p:
                    raise ValueError('time data does not match format %r' % f)
            elif isinstance(p, str) or w not in ('%d', '%m', '%Y', '%H', '%I', '%M'):
                raise ValueError('time data does not match format %r' % f)
            else:
                d[w] = p
        if '%I' in d:
            h = d['%I']
            if bool(h < 1) or bool(h > 12):
                raise ValueError('time data does not match format %r' % f)
            d['%H'] = lift(0) if bool(h == 12) else h
        if isinstance(d.get('%Y'), int) is False or not isinstance(self.parts[4], int):
            raise ValueError('time data does not match format %r' % f)
        return Timestamp._of(self.seconds(d['%d'], d['%m'], d['%Y'], d['%H'], d['%M']))

    def guess(self, dayfirst=False):
        """As pandas reads it without a format: month first where that is possible."""
        day, month = self.parts[0], self.parts[2]
        if not dayfirst and bool(day <= 12):
            day, month = month, day
        return Timestamp._of(self.seconds(day, month, self.parts[4], self.parts[6], self.parts[8]))


def to_datetime(x, **kw):
    if isinstance(x, Timestamp):
        return x
    if isinstance(x, DateText):
        return x.strptime(kw['format']) if kw.get('format') else x.guess(kw.get('dayfirst', False))
    if isinstance(x, list) and x and all(isinstance(v, DateText) for v in x):
        return DatetimeIndex([to_datetime(v, **kw) for v in x])
    if isinstance(x, (DatetimeIndex, list)) or isinstance(x, np.ndarray) and x.ndim > 0:
        return DatetimeIndex(list(x))
    if isinstance(x, np.ndarray):
        x = x[()]
    return Timestamp(x)


def to_timedelta(x, unit=None, **kw):
    if isinstance(x, np.ndarray) and x.ndim > 0 or isinstance(x, (list, tuple, TimedeltaIndex)):
        return TimedeltaIndex([Timedelta(v, unit=unit) for v in x])
    return Timedelta(x, unit=unit)


def isna(x):
    if x is None or x is NAT:
        return True
    if isinstance(x, Series):
        return x.isna()
    if isinstance(x, (Timestamp, Timedelta, str)):
        return False
    if isinstance(x, np.ndarray) and x.ndim > 0 or isinstance(x, (list, tuple)):
        return np.array([bool(isna(v)) for v in x], dtype=bool)
    x = num(x)
    return isinstance(x, float) and x != x


def notna(x):
    return np.logical_not(isna(x)) if isinstance(isna(x), np.ndarray) else not isna(x)


class _NaT(object):
    """The missing time."""
    __hash__ = None

    def _no(self, o):
        return False

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _no

    def __ne__(self, o):
        return True

    def _me(self, o=None):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = _me

    def total_seconds(self):
        return NAN


NAT = _NaT()


def concat(xs, **kw):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = r.append(x)
    return r


class _Pd(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'pandas')
        self.Timedelta, self.Timestamp, self.DatetimeIndex, self.TimedeltaIndex = Timedelta, Timestamp, DatetimeIndex, TimedeltaIndex
        self.Series, self.DataFrame, self.date_range, self.to_datetime, self.concat = Series, DataFrame, date_range, to_datetime, concat

        self.offsets = types.SimpleNamespace(Second=lambda n=1: Timedelta(seconds=n), Minute=lambda n=1: Timedelta(minutes=n),
                                             Hour=lambda n=1: Timedelta(hours=n), Day=lambda n=1: Timedelta(days=n))
        self.to_timedelta, self.isna, self.isnull, self.notna, self.notnull, self.NaT = to_timedelta, isna, isna, notna, notna, NAT

    def read_csv(self, *a, **k):
        raise Unsupported('read_csv')


def module(**extra):
    m = _Pd()
    for k, v in extra.items():
        setattr(m, k, v)
    return m
