"""The `numpy` and `math` modules seen by the code under symbolic execution."""
import math
import types
import numbers
import numpy as np
from fractions import Fraction
from . import core, funcs, arr
from .core import (Sym, SymBool, lift, ite, smax, smin, band, bor, bnot, eng, NAN, INF,
                   Unsupported)
from .arr import (SymArray, array, to_obj, wrap, is_boolish, is_num, has_sym, reduce_axis,
                  elementwise, _isnan, _b, norm, _fold)


def wrap_any(r):
    if isinstance(r, tuple):
        return tuple(wrap_any(x) for x in r)
    if isinstance(r, list):
        return [wrap_any(x) for x in r]
    return wrap(r)


# ------------------------------------------------------------ constructors --

def _dtk(dtype):
    return arr._kind(dtype)


def zeros(shape, dtype=float, order='C', **kw):
    return full(shape, 0, dtype)


def ones(shape, dtype=float, order='C', **kw):
    return full(shape, 1, dtype)


def full(shape, fill_value, dtype=None, order='C', **kw):
    shape = _shape(shape)
    if dtype is None:
        fv = fill_value
        if isinstance(fv, (bool, np.bool_)):
            return np.full(shape, bool(fv))
        if isinstance(fv, (numbers.Integral, np.integer)):
            return np.full(shape, fv)
        if isinstance(fv, np.ndarray) and fv.dtype != object and fv.dtype.kind in 'bi':
            return np.full(shape, fv)
        if isinstance(fv, str):
            return np.full(shape, fv)
        out = np.empty(shape, dtype=object)
        src = np.broadcast_to(to_obj(fv), out.shape)
        for ix in np.ndindex(*out.shape):
            out[ix] = src[ix]
        return out.view(SymArray)
    k = _dtk(dtype)
    if k == 'b':
        return np.full(shape, bool(fill_value))
    if k in ('i', 'u'):
        return np.full(shape, int(fill_value))
    if k == 'f':
        out = np.empty(shape, dtype=object)
        src = np.broadcast_to(to_obj(fill_value), out.shape)
        for ix in np.ndindex(*out.shape):
            out[ix] = lift(src[ix])
        return out.view(SymArray)
    return np.full(shape, fill_value, dtype)


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(x.__index__() if isinstance(x, Sym) else int(x) for x in s)
    if isinstance(s, Sym):
        return s.__index__()
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s.reshape(-1))
    return s


def empty(shape, dtype=float, order='C', **kw):
    """Uninitialised memory: arbitrary contents."""
    k = _dtk(dtype)
    if k == 'f':
        out = np.empty(_shape(shape), dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = Sym(None, eng().fresh('uninit'))
        return out.view(SymArray)
    if k == 'b':
        out = np.empty(_shape(shape), dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = SymBool(eng().fresh_bool('uninit'))
        return out.view(SymArray)
    return np.zeros(_shape(shape), dtype=dtype)


def zeros_like(a, dtype=None, **k):
    return full_like(a, 0, dtype)


def ones_like(a, dtype=None, **k):
    return full_like(a, 1, dtype)


def empty_like(a, dtype=None, **k):
    if dtype is None and isinstance(a, np.ndarray) and a.dtype != object:
        return np.zeros_like(a)
    return empty(np.shape(a), float if dtype is None else dtype)


def full_like(a, fill_value, dtype=None, **k):
    if dtype is None:
        if isinstance(a, np.ndarray) and a.dtype != object:
            dtype = a.dtype
        else:
            o = to_obj(a).reshape(-1)
            dtype = bool if o.size and all(is_boolish(v) for v in o) else float
    return full(np.shape(to_obj(a)), fill_value, dtype)


def asarray(x, dtype=None, **k):
    return array(x, dtype, copy=False)


def arange(*args, **kw):
    if any(has_sym(a) or isinstance(a, (float, Fraction)) for a in args) or kw:
        vals = list(args)
        start, stop, step = 0, None, 1
        if len(vals) == 1:
            stop = vals[0]
        elif len(vals) == 2:
            start, stop = vals
        else:
            start, stop, step = vals[:3]
        start = kw.get('start', start)
        stop = kw.get('stop', stop)
        step = kw.get('step', step)
        if all(isinstance(v, (numbers.Integral, np.integer)) for v in (start, stop, step)):
            return np.arange(start, stop, step, dtype=kw.get('dtype'))
        start, stop, step = [lift(v) for v in (start, stop, step)]
        if start.c is not None and step.c is not None:
            # numpy's own arithmetic: rounded to double precision, so that
            # start + k * step need not be the exact multiple
            if step.c == 0:
                raise ZeroDivisionError('Maximum allowed size exceeded')
            a, d = float(start.c), float(step.c)
            if stop.c is not None:
                return array(np.arange(a, float(stop.c), d), keep_native=False)
            n = -core.floor(-((stop - start) / step))
            d = (a + d) - a
            return array(np.array([a, a + d][:max(n, 0)] + [a + i * d for i in range(2, n)]), keep_native=False)
        n = -core.floor(-((stop - start) / step))
        out = np.empty(max(n, 0), dtype=object)
        for i in range(max(n, 0)):
            out[i] = start + step * i
        return out.view(SymArray)
    return np.arange(*args)


def linspace(start, stop, num=50, endpoint=True, **kw):
    num = int(num) if not isinstance(num, Sym) else num.__index__()
    start, stop = lift(start), lift(stop)
    div = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        if div <= 0:
            out[i] = start
        elif endpoint and i == num - 1:
            out[i] = stop
        else:
            out[i] = start + (stop - start) * Fraction(i, div)
    r = out.view(SymArray)
    if kw.get('retstep'):
        return r, (stop - start) / div
    return r


# -------------------------------------------------------------- selection ---

def where(cond, *xy):
    if not xy:
        c = cond
        if isinstance(c, np.ndarray) and c.dtype != object:
            return np.where(np.asarray(c))
        o = to_obj(c)
        if o.ndim == 0:
            o = o.reshape(1)
        m = np.empty(o.shape, dtype=bool)
        for ix in np.ndindex(*o.shape):
            m[ix] = bool(_b(o[ix]))
        return np.where(m)
    x, y = xy
    return wrap(elementwise(lambda c, a, b: ite(_b(c), a, b), [cond, x, y]))


def nonzero(a):
    return where(a)


def argwhere(a):
    return np.transpose(np.array(where(a)))


def flatnonzero(a):
    return where(to_obj(a).reshape(-1).view(SymArray))[0]


def count_nonzero(a, axis=None, **k):
    return reduce_axis(a, axis, lambda xs: sum([ite(_b(x), 1, 0) for x in xs], lift(0)))


def _arg(a, axis, better):
    if hasattr(a, 'total_seconds') and axis in (None, 0):
        a = a.total_seconds()
    o = to_obj(a)
    if axis is not None and o.ndim > 1:
        r = reduce_axis(a, axis, lambda xs: _argl(xs, better))
        return arr.astype(r, int) if isinstance(r, np.ndarray) else r
    return _argl(list(o.reshape(-1)), better)


def _argl(xs, better):
    if not xs:
        raise ValueError('attempt to get argmin of an empty sequence')
    best = 0
    for i, v in enumerate(xs):
        if _isnan(v):
            return i
    for i in range(1, len(xs)):
        if bool(better(lift(xs[i]), lift(xs[best]))):
            best = i
    return best


def argmin(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x < y)


def argmax(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x > y)


def nanargmin(a, axis=None):
    o = list(to_obj(a).reshape(-1))
    ok = [i for i, v in enumerate(o) if not _isnan(v)]
    if not ok:
        raise ValueError('All-NaN slice encountered')
    return ok[_argl([o[i] for i in ok], lambda x, y: x < y)]


def nanargmax(a, axis=None):
    o = list(to_obj(a).reshape(-1))
    ok = [i for i, v in enumerate(o) if not _isnan(v)]
    if not ok:
        raise ValueError('All-NaN slice encountered')
    return ok[_argl([o[i] for i in ok], lambda x, y: x > y)]


# -------------------------------------------------------------- reductions --

def _red(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
        if isinstance(a, np.ndarray) and a.dtype != object and where is None and initial is None:
            return wrap(getattr(np, {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min',
                                     'logical_and': 'all', 'logical_or': 'any'}[name])(a, axis=axis))
        if where is not None and where is not True:
            o = to_obj(a)
            w = np.broadcast_to(to_obj(where), o.shape)
            ident = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}.get(name)
            if ident is None:
                raise Unsupported('reduction with where')
            a = elementwise(lambda c, v: ite(_b(c), v, ident), [w, o])
        fold = (lambda xs: _fold(name, xs)) if initial is None else (lambda xs: _fold(name, list(xs) + [initial]))
        return reduce_axis(a, axis, fold, bool(keepdims) and keepdims is not np._NoValue)
    return f


def _nanred(name, empty=None):
    def f(a, axis=None, **k):
        def fn(xs):
            xs = [x for x in xs if not _isnan(x)]
            if not xs and empty is not None:
                return empty
            return _fold(name, xs)
        return reduce_axis(a, axis, fn)
    return f


def mean(a, axis=None, **k):
    def fn(xs):
        return NAN if not xs else _fold('add', xs) / len(xs)
    return reduce_axis(a, axis, fn)


def nanmean(a, axis=None, **k):
    def fn(xs):
        xs = [x for x in xs if not _isnan(x)]
        return NAN if not xs else _fold('add', xs) / len(xs)
    return reduce_axis(a, axis, fn)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    o, w = to_obj(a), to_obj(weights)
    return _fold('add', list(elementwise(arr.UF['multiply'], [o, w]).reshape(-1))) / \
        _fold('add', list(w.reshape(-1)))


def median(a, axis=None, **k):
    xs = list(np.asarray(sort(a)))
    n = len(xs)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def ptp(a, axis=None, **k):
    return _red('maximum')(a, axis) - _red('minimum')(a, axis)


def sort(a, axis=-1, **k):
    xs = [lift(v) for v in to_obj(a).reshape(-1)]
    order = _order(xs)
    out = np.empty(len(xs), dtype=object)
    for i, j in enumerate(order):
        out[i] = xs[j]
    return out.view(SymArray)


def _order(xs):
    order = []
    for i, v in enumerate(xs):
        k = len(order)
        while k > 0 and (_isnan(xs[order[k - 1]]) or bool(v < xs[order[k - 1]])) and not _isnan(v):
            k -= 1
        order.insert(k, i)
    return order


def argsort(a, axis=-1, **k):
    return np.array(_order([lift(v) for v in to_obj(a).reshape(-1)]), dtype=np.int64)


def unique(a, **k):
    if any(k.values()):
        raise Unsupported('unique with options')
    xs = list(np.asarray(sort(a)))
    out = []
    for v in xs:
        if not out or not bool(out[-1] == v):
            out.append(v)
    return array(out)


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = elementwise(smax, [r, a_min])
    if a_max is not None:
        r = elementwise(smin, [r, a_max])
    r = np.asarray(r)
    if out is not None:
        arr.store(out, r)
        return out
    return wrap(r) if r.ndim else r.item()


def _interp1(x, xp, fp, left, right):
    n = len(xp)
    if _isnan(x):
        return NAN
    r = fp[-1] if right is None else right
    # segments from the right; numpy: x > xp[-1] -> right, x == xp[-1] -> fp[-1]
    res = ite(x > xp[-1], r, fp[-1]) if right is not None else fp[-1]
    for j in range(n - 2, -1, -1):
        dx = xp[j + 1] - xp[j]
        c = x < xp[j + 1]
        if c is False:
            break
        seg = fp[j] + (fp[j + 1] - fp[j]) * (x - xp[j]) / dx
        res = ite(c, seg, res)
    if xp:
        lft = fp[0] if left is None else left
        res = ite(x < xp[0], lft, res)
    return res


def interp(x, xp, fp, left=None, right=None, period=None):
    xp = [lift(v) for v in to_obj(xp).reshape(-1)]
    fp = [lift(v) for v in to_obj(fp).reshape(-1)]
    if len(xp) == 0:
        raise ValueError('array of sample points is empty')
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    if period is not None:
        raise Unsupported('interp with period')
    left = None if left is None else lift(left)
    right = None if right is None else lift(right)
    if isinstance(x, (np.ndarray, list, tuple)):
        r = elementwise(lambda v: _interp1(lift(v), xp, fp, left, right), [x])
        return wrap(r) if r.ndim else r.item()
    return _interp1(lift(x), xp, fp, left, right)


def searchsorted(a, v, side='left', sorter=None):
    xs = [lift(y) for y in to_obj(a).reshape(-1)]

    def one(y):
        y = lift(y)
        i = 0
        while i < len(xs) and bool(xs[i] < y if side == 'left' else xs[i] <= y):
            i += 1
        return i
    if isinstance(v, (np.ndarray, list, tuple)):
        o = to_obj(v)
        return np.array([one(y) for y in o.reshape(-1)], dtype=np.int64).reshape(o.shape)
    return one(v)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, 'left' if right else 'right')


def diff(a, n=1, axis=-1, **k):
    if isinstance(a, np.ndarray) and a.dtype != object:
        return wrap(np.diff(a, n, axis))
    o = array(a) if not isinstance(a, np.ndarray) else a
    if k.get('prepend', np._NoValue) is not np._NoValue or k.get('append', np._NoValue) is not np._NoValue:
        parts = []
        for key in ('prepend', None, 'append'):
            if key is None:
                parts.append(np.asarray(to_obj(o)))
            elif k.get(key, np._NoValue) is not np._NoValue:
                p = to_obj(k[key])
                parts.append(p.reshape(-1) if p.ndim == 0 else p)
        o = np.concatenate(parts)
    for _ in range(n):
        o = np.moveaxis(to_obj(o), axis, -1)
        o = np.moveaxis(elementwise(arr.UF['subtract'], [o[..., 1:], o[..., :-1]]), -1, axis)
    return wrap(o)


def dot(a, b, **k):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(elementwise(arr.UF['multiply'], [a, b]))
    if a.ndim == 1 and b.ndim == 1:
        return _fold('add', [lift(x) * lift(y) for x, y in zip(a, b)])
    out = np.empty(a.shape[:-1] + b.shape[1:], dtype=object)
    for ix in np.ndindex(*out.shape):
        i, j = ix[:a.ndim - 1], ix[a.ndim - 1:]
        out[ix] = _fold('add', [lift(a[i + (q,)]) * lift(b[(q,) + j]) for q in range(b.shape[0])])
    return wrap(out)


def round_(a, decimals=0, out=None):
    if decimals != 0:
        s = 10 ** decimals
        return round_(a * s, 0) / s if has_sym(a) else wrap(np.round(a, decimals))
    if isinstance(a, np.ndarray):
        return wrap(elementwise(arr.UF['rint'], [a]))
    return arr.UF['rint'](a)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        x, y = lift(x), lift(y)
        if isinstance(x, float) or isinstance(y, float):
            return x == y if not (_isnan(x) and _isnan(y)) else equal_nan
        return abs(x - y) <= lift(atol) + lift(rtol) * abs(y)
    r = elementwise(f, [a, b])
    return wrap(r) if r.ndim else r.item()


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bor(_fold('logical_and', list(to_obj(isclose(a, b, rtol, atol, equal_nan)).reshape(-1))))


def array_equal(a, b, equal_nan=False):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return band(*[arr.UF['equal'](x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])


def nan_to_num(a, copy=True, nan=0.0, **k):
    r = elementwise(lambda v: lift(nan) if _isnan(v) else v, [a])
    return wrap(r) if r.ndim else r.item()


def isin(a, test, **k):
    ts = list(to_obj(test).reshape(-1))
    r = elementwise(lambda v: bor(*[arr.UF['equal'](v, t) for t in ts]) if ts else False, [a])
    return wrap(r) if r.ndim else r.item()


def trapz(y, x=None, dx=1.0, axis=-1):
    ys = [lift(v) for v in to_obj(y).reshape(-1)]
    if x is None:
        d = [lift(dx)] * (len(ys) - 1)
    else:
        xs = [lift(v) for v in to_obj(x).reshape(-1)]
        d = [b - a for a, b in zip(xs, xs[1:])]
    return _fold('add', [(a + b) / 2 * h for a, b, h in zip(ys, ys[1:], d)])


def polyfit(x, y, deg, **k):
    if deg != 1:
        raise Unsupported('polyfit of degree %r' % deg)
    simp = lambda v: v if isinstance(v, float) or v.c is not None else core.mk(core.z3.simplify(v.e, som=True))
    xs = [simp(lift(v)) for v in to_obj(x).reshape(-1)]
    ys = [simp(lift(v)) for v in to_obj(y).reshape(-1)]
    n = len(xs)
    mx, my = _fold('add', xs) / n, _fold('add', ys) / n
    sxx = simp(_fold('add', [(a - mx) * (a - mx) for a in xs]))
    sxy = simp(_fold('add', [(a - mx) * (b - my) for a, b in zip(xs, ys)]))
    m = simp(sxy / sxx)
    return array([m, simp(my - m * mx)], keep_native=False)


def interp_stub(*a, **k):
    raise Unsupported('function')


def scalarfn(name):
    f = arr.UF[name]
    real = getattr(np, name)

    def g(*args, **kw):
        nin = real.nin
        ins, extra = list(args[:nin]), args[nin:]
        ser = next((x for x in ins if hasattr(x, '_bin') and hasattr(x, '__symarray__')), None)
        if ser is not None:
            return ser._make(ser.index, {None: list(g(*[x.values if hasattr(x, '_bin') else x for x in ins], **kw).reshape(-1))})
        out = kw.get('out', extra[0] if extra else None)
        if isinstance(out, tuple):
            out = out[0]
        where = kw.get('where', True)
        if not any(has_sym(x) for x in ins) and out is None and where is True and not any(
                isinstance(x, float) or isinstance(x, np.ndarray) and x.dtype.kind == 'f' for x in ins):
            return wrap(real(*ins, **{k: v for k, v in kw.items() if k not in ('out', 'where')}))
        ins = [array(x) if isinstance(x, (list, tuple)) else x for x in ins]
        if all(not isinstance(x, np.ndarray) for x in ins) and out is None and where is True:
            return f(*ins)
        res = [x if isinstance(x, SymArray) else x for x in ins]
        carrier = np.empty((), dtype=object).view(SymArray)
        return carrier.__array_ufunc__(real, '__call__', *res,
                                       **({'out': (out,)} if out is not None else {}),
                                       **({'where': where} if where is not True else {}))
    g.__name__ = name
    g.real = real

    def red(a, *args, **kw):
        return SymArray.__array_ufunc__(np.empty((), dtype=object).view(SymArray), real, 'reduce', a, **kw)

    def acc(a, *args, **kw):
        return SymArray.__array_ufunc__(np.empty((), dtype=object).view(SymArray), real, 'accumulate', a, **kw)

    def at(a, idx, *vals):
        if not (isinstance(a, np.ndarray) and a.dtype == object):
            return real.at(a, idx, *vals)
        return SymArray.__array_ufunc__(np.empty((), dtype=object).view(SymArray), real, 'at', a, idx, *vals)

    def outer(a, b, **kw):
        return SymArray.__array_ufunc__(np.empty((), dtype=object).view(SymArray), real, 'outer', a, b)
    g.reduce, g.accumulate, g.at, g.outer = red, acc, at, outer
    return g


def cumsum(a, axis=None, **k):
    o = to_obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    if isinstance(a, np.ndarray) and a.dtype != object:
        return wrap(np.cumsum(a, axis))
    return np.empty((), dtype=object).view(SymArray).__array_ufunc__(np.add, 'accumulate', o.view(SymArray), axis=axis)


def insert(a, obj, values, axis=None):
    return wrap(np.insert(to_obj(a), obj, to_obj(values) if not np.isscalar(values) else norm(values), axis))


def append(a, values, axis=None):
    if not has_sym(a) and not has_sym(values):
        return wrap(np.append(a, values, axis))
    return wrap(np.append(to_obj(a), to_obj(values), axis))


def _seq(fn):
    def f(arrays, *a, **k):
        xs = [array(x) if isinstance(x, (list, tuple)) else x for x in arrays]
        if any(isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (Sym, SymBool)) for x in xs):
            # an all-boolean operand keeps its booleans; numbers become exact terms
            xs = [to_obj(x) for x in xs]
        return wrap(fn(xs, *a, **k))
    return f


def ndarray_fn(fn):
    """A structural numpy function (no arithmetic): runs on the object array."""
    def f(a, *args, **k):
        if isinstance(a, (list, tuple, Sym, SymBool)):
            a = array(a) if not isinstance(a, (Sym, SymBool)) else to_obj(a).view(SymArray)
        return wrap_any(fn(np.asarray(a), *args, **k))
    return f


def delete(a, obj, axis=None):
    return wrap(np.delete(to_obj(a) if has_sym(a) else a, arr.norm_key(obj), axis))


def nanless(*a, **k):
    raise Unsupported('nan function')


def vectorize(fn, **k):
    def g(*args):
        return wrap(elementwise(fn, args))
    return g


def any_(a, axis=None, **k):
    return _red('logical_or')(a, axis, **k)


def piecewise(x, condlist, funclist):
    raise Unsupported('piecewise')


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


class _LinAlgStub(object):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        raise Unsupported('numpy.linalg.%s' % name)

    @staticmethod
    def norm(a, *args, **k):
        xs = [lift(v) for v in to_obj(a).reshape(-1)]
        return funcs.sqrt(_fold('add', [x * x for x in xs]))


class _RandomStub(object):
    def __getattr__(self, name):
        raise Unsupported('numpy.random.%s' % name)

    @staticmethod
    def random(shape=None):
        def one():
            e = eng().fresh('rand')
            eng().add_def(core.z3.And(e >= 0, e < 1))
            eng().model_valid = False
            return Sym(None, e)
        if shape is None:
            return one()
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = one()
        return out.view(SymArray)

    rand = random


class _ErrState(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


OVERRIDES = dict(
    zeros=zeros, ones=ones, full=full, empty=empty, zeros_like=zeros_like, ones_like=ones_like,
    empty_like=empty_like, full_like=full_like, array=array, asarray=asarray, asanyarray=asarray,
    ascontiguousarray=asarray, atleast_1d=lambda a: array(a, ndmin=1, copy=False),
    arange=arange, linspace=linspace, where=where, nonzero=nonzero, argwhere=argwhere,
    flatnonzero=flatnonzero, count_nonzero=count_nonzero, argmin=argmin, argmax=argmax,
    nanargmin=nanargmin, nanargmax=nanargmax,
    sum=_red('add'), prod=_red('multiply'), max=_red('maximum'), min=_red('minimum'),
    amax=_red('maximum'), amin=_red('minimum'), all=_red('logical_and'), any=_red('logical_or'),
    nansum=_nanred('add', Sym(Fraction(0))), nanprod=_nanred('multiply', Sym(Fraction(1))),
    nanmax=_nanred('maximum', NAN), nanmin=_nanred('minimum', NAN),
    mean=mean, nanmean=nanmean, average=average, median=median, ptp=ptp,
    sort=sort, argsort=argsort, unique=unique, clip=clip, interp=interp,
    searchsorted=searchsorted, digitize=digitize, diff=diff, dot=dot, inner=dot, matmul=dot,
    vdot=dot, round=round_, around=round_, round_=round_, isclose=isclose, allclose=allclose,
    array_equal=array_equal, nan_to_num=nan_to_num, isin=isin, in1d=isin, trapz=trapz,
    polyfit=polyfit, cumsum=cumsum, insert=insert, append=append, delete=delete,
    concatenate=_seq(np.concatenate), hstack=_seq(np.hstack), vstack=_seq(np.vstack),
    stack=_seq(np.stack), column_stack=_seq(np.column_stack),
    vectorize=vectorize, select=select,
    isscalar=lambda x: isinstance(x, (Sym, SymBool)) or np.isscalar(x),
    ndim=lambda a: to_obj(a).ndim if not isinstance(a, np.ndarray) else a.ndim,
    shape=lambda a: to_obj(a).shape if not isinstance(a, np.ndarray) else a.shape,
    size=lambda a, axis=None: (to_obj(a) if not isinstance(a, np.ndarray) else a).size if axis is None
    else (to_obj(a) if not isinstance(a, np.ndarray) else a).shape[axis],
    copy=lambda a, **k: array(a, copy=True),
    iscomplexobj=lambda a: False, isrealobj=lambda a: True,
    errstate=_ErrState, seterr=lambda **k: {},
)
for _n in ('flipud', 'fliplr', 'flip', 'ravel', 'squeeze', 'reshape', 'transpose', 'roll', 'tile',
           'repeat', 'expand_dims', 'moveaxis', 'swapaxes', 'atleast_2d', 'broadcast_to', 'rot90',
           'split', 'array_split', 'take'):
    OVERRIDES[_n] = ndarray_fn(getattr(np, _n))
for _n in arr.UF:
    if _n not in OVERRIDES and hasattr(np, _n):
        OVERRIDES[_n] = scalarfn(_n)
_absolute = OVERRIDES['absolute']
OVERRIDES['abs'] = OVERRIDES['absolute'] = lambda x, *a, **k: abs(x) if hasattr(x, 'total_seconds') else _absolute(x, *a, **k)
OVERRIDES['linalg'] = _LinAlgStub()


def _copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
        return
    w = np.broadcast_to(np.asarray(where), dst.shape)
    v = np.broadcast_to(to_obj(src), dst.shape)
    for k in np.ndindex(*dst.shape):
        if bool(w[k]):
            dst[k] = v[k]


OVERRIDES['copyto'] = _copyto


def _native(f, name):
    """Index and flag arrays known on the path are left to numpy."""
    real = getattr(np, name)

    def plain(x, top=True):
        if isinstance(x, np.ndarray):
            return x.dtype.kind in 'iub' and type(x) is np.ndarray
        if isinstance(x, (list, tuple)):
            return all(plain(v) for v in x)
        return isinstance(x, (int, bool, str, np.integer, np.bool_, type(None))) and not isinstance(x, Sym)

    def g(*a, **k):
        if any(isinstance(x, np.ndarray) or isinstance(x, (list, tuple)) and any(isinstance(v, np.ndarray) for v in x) for x in a) \
                and all(plain(x) for x in a) and all(plain(x) for x in k.values()):
            return real(*a, **k)
        return f(*a, **k)
    g.__dict__.update(getattr(f, '__dict__', {}))
    g.__name__ = name
    return g


for _n in ('sort', 'argsort', 'unique', 'diff', 'cumsum', 'min', 'max', 'amin', 'amax', 'argmin', 'argmax', 'where', 'nonzero',
           'flatnonzero', 'argwhere', 'isin', 'in1d', 'clip', 'searchsorted', 'minimum', 'maximum', 'insert', 'append', 'delete',
           'concatenate', 'hstack', 'count_nonzero', 'intersect1d', 'union1d', 'setdiff1d', 'array_equal'):
    if _n in OVERRIDES:
        OVERRIDES[_n] = _native(OVERRIDES[_n], _n)
OVERRIDES['random'] = _RandomStub()


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, float, np.floating))


class SymFloat(float, metaclass=_FMeta):
    """Stands for float / np.float64: conversion keeps symbolic values."""
    _symx_kind = 'f'

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, str):
            return lift(float(x))
        if isinstance(x, (Sym, SymBool, numbers.Number, np.generic)):
            return lift(x)
        return lift(float(x))


class SymSingle(SymFloat):
    """np.float32."""


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, np.integer)) and not isinstance(x, np.bool_)


class SymInt(int, metaclass=_IMeta):
    _symx_kind = 'i'

    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            return core.trunc(x)
        if isinstance(x, SymBool):
            return 1 if bool(x) else 0
        return int(x, *a)


class NumpyProxy(types.ModuleType):
    """Attribute access falls back to real numpy, run on the object arrays."""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')

    def __getattr__(self, name):
        if name in OVERRIDES:
            return OVERRIDES[name]
        if name == 'pi':
            return funcs.pi()
        if name in ('nan', 'NaN', 'NAN'):
            return NAN
        if name in ('inf', 'Inf', 'infty'):
            return INF
        if name in ('float32', 'single'):
            return SymSingle
        if name in ('float64', 'float_', 'double', 'floating', 'float16', 'longdouble'):
            return SymFloat
        if name in ('newaxis',):
            return None
        v = getattr(np, name)
        if isinstance(v, (types.ModuleType,)):
            return _SubModule(v)
        if isinstance(v, type):
            return v
        if callable(v):
            def g(*a, **k):
                a = [array(list(x)) if isinstance(x, (list, tuple)) and has_sym(list(x)) else x for x in a]
                try:
                    return wrap_any(v(*a, **k))
                except (TypeError, ValueError) as err:
                    if any(has_sym(x) for x in a):
                        raise Unsupported('numpy.%s: %s' % (name, err))
                    raise
            g.__name__ = name
            return g
        return v


class _SubModule(object):
    def __init__(self, m):
        self._m = m

    def __getattr__(self, name):
        return getattr(self._m, name)


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, name):
        tbl = {
            'pi': lambda: funcs.pi(), 'nan': lambda: NAN, 'inf': lambda: INF,
        }
        if name in tbl:
            return tbl[name]()
        fn = {
            'floor': lambda x: core.floor(lift(x)), 'ceil': lambda x: -core.floor(-lift(x)),
            'trunc': lambda x: core.trunc(lift(x)),
            'sqrt': _msqrt, 'sin': funcs.sin, 'cos': funcs.cos, 'tan': funcs.tan,
            'atan': funcs.arctan, 'atan2': funcs.arctan2, 'asin': funcs.arcsin, 'acos': funcs.arccos,
            'exp': funcs.exp, 'log': funcs.mathlog, 'tanh': funcs.tanh, 'sinh': funcs.sinh, 'cosh': funcs.cosh, 'hypot': funcs.hypot,
            'fabs': funcs.absolute, 'pow': lambda a, b: lift(a) ** lift(b),
            'isnan': lambda x: _isnan(lift(x)), 'isfinite': lambda x: not isinstance(lift(x), float),
            'isinf': lambda x: isinstance(lift(x), float) and not _isnan(lift(x)),
            'radians': funcs.deg2rad, 'degrees': funcs.rad2deg,
            'fsum': lambda xs: _fold('add', list(xs)),
            'fmod': lambda a, b: _fmod(lift(a), lift(b)),
            'copysign': lambda a, b: ite(lift(b) >= 0, abs(lift(a)), -abs(lift(a))),
            'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0:
                abs(lift(a) - lift(b)) <= smax(lift(rel_tol) * smax(abs(lift(a)), abs(lift(b))), lift(abs_tol)),
        }.get(name)
        if fn is not None:
            def one(*args, **k):
                args = [x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x for x in args]
                return fn(*args, **k)
            return one
        return getattr(math, name)


def _msqrt(x):
    x = lift(x)
    if isinstance(x, Sym) and bool(x < 0):
        raise ValueError('math domain error')
    return funcs.sqrt(x)


def _fmod(a, b):
    q = a / b
    return a - b * core.trunc(q)


NP = NumpyProxy()
MATH = MathProxy()
