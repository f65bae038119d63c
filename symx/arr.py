"""SymArray: a numpy object array whose elements are symbolic reals/booleans.

Views, broadcasting, fancy indexing and in-place semantics are numpy's own; only
the element operations, masks and a few reductions are replaced.
"""
import math
import numbers
import operator
import numpy as np
from fractions import Fraction
from . import core, funcs
from .core import (Sym, SymBool, lift, ite, smax, smin, band, bor, bnot, mkbool, eng,
                   NAN, INF, Unsupported, z3, zb)


def is_num(x):
    return isinstance(x, (Sym, float, np.floating, Fraction)) or \
        (isinstance(x, numbers.Integral) and not isinstance(x, (bool, np.bool_)))


class Flt(float):
    """NaN or infinity as a numpy scalar: one value, no dimensions."""
    size, ndim, shape = 1, 0, ()

    def item(self):
        return float(self)

    copy = squeeze = max = min = sum = mean = item


def scalar(x):
    """The value of a 0-d result."""
    return Flt(x) if type(x) is float else x


def is_boolish(x):
    return isinstance(x, (bool, np.bool_, SymBool))


def wrap(a):
    """Normalise a result: native float arrays become SymArray; object arrays of concrete
    booleans become native bool arrays."""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            if a.ndim == 0:
                return a.item()
            flat = a.reshape(-1)
            if flat.size and all(isinstance(v, (bool, np.bool_)) for v in flat):
                return np.asarray(a).astype(bool)
            return a.view(SymArray)
        if a.dtype.kind == 'f':
            return from_native(a)
    elif isinstance(a, np.floating):
        return lift(a)
    return a


def from_native(a):
    """Native numeric array -> SymArray of exact constants (0-d stays 0-d)."""
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, v in enumerate(np.asarray(a).reshape(-1)):
        of[i] = norm(v)
    return out.reshape(a.shape).view(SymArray)


def norm(v):
    """Element normal form."""
    if isinstance(v, (Sym, SymBool, bool)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return norm(v.item())
    if isinstance(v, np.ndarray) and v.size == 1:
        return norm(v.reshape(-1)[0])
    try:
        return lift(v)
    except TypeError:
        return v


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def to_obj(x):
    """Anything array-like -> object ndarray with normalised elements (shares SymArray storage)."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.asarray(x)
        out = np.empty(x.shape, dtype=object)
        of = out.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            of[i] = norm(v)
        return of.reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return np.asarray(array(x, keep_native=False))
    if hasattr(x, '__symarray__'):
        return np.asarray(x.__symarray__())
    out = np.empty((), dtype=object)
    out[()] = norm(x)
    return out


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        s = _shape_of(x[0])
        for y in x[1:]:
            if _shape_of(y) != s:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(x),) + s
    return ()


def _fill(out, x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            out[()] = norm(x.item())
        else:
            for i in range(x.shape[0]):
                if out.ndim == 1:
                    out[i] = norm(x[i])
                else:
                    _fill(out[i], x[i])
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            if out.ndim == 1:
                out[i] = norm(y)
            else:
                _fill(out[i], y)
    else:
        out[()] = norm(x)


def array(x, dtype=None, copy=True, keep_native=True, ndmin=0):
    """numpy.array replacement."""
    if hasattr(x, '__symarray__'):
        x = x.__symarray__()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            r = x if isinstance(x, SymArray) else x.view(SymArray)
            r = r.copy() if copy else r
        elif x.dtype.kind == 'f':
            r = from_native(x)
        else:
            r = np.array(x) if copy else x
    elif isinstance(x, (list, tuple)) or isinstance(x, (Sym, SymBool, numbers.Number, np.generic)):
        leaves = []

        def walk(y):
            if isinstance(y, (list, tuple)):
                for z in y:
                    walk(z)
            elif isinstance(y, np.ndarray):
                leaves.extend(list(y.reshape(-1)) if y.dtype == object else
                              [y.dtype.type(0)] if y.size else [])
            else:
                leaves.append(y)
        walk(x)
        if keep_native and leaves and all(isinstance(v, (bool, np.bool_)) for v in leaves):
            return _castarr(np.array(x), dtype)
        if keep_native and leaves and all(isinstance(v, (numbers.Integral, np.integer)) for v in leaves):
            return _castarr(np.array(x), dtype)
        if any(not (is_num(v) or is_boolish(v)) for v in leaves):
            return np.array(x, dtype=dtype)
        out = np.empty(_shape_of(x), dtype=object)
        _fill(out, x)
        r = out.view(SymArray)
    else:
        return wrap(np.array(x, dtype=dtype))
    r = _castarr(r, dtype)
    while ndmin > r.ndim:
        r = r[None]
    return r


def _castarr(a, dtype):
    if dtype is None or dtype is object:
        return a
    k = _kind(dtype)
    if k == 'f' and isinstance(a, np.ndarray) and a.dtype != object:
        return from_native(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return astype(a, dtype)
    if k is None:
        return np.asarray(a)
    return np.asarray(a, dtype=dtype)


def _kind(dtype):
    if dtype is float or dtype is None:
        return 'f'
    if dtype is int:
        return 'i'
    if dtype is bool:
        return 'b'
    if isinstance(dtype, type) and issubclass(dtype, float):
        return 'f'
    if isinstance(dtype, type) and getattr(dtype, '_symx_kind', None):
        return dtype._symx_kind
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return None


def cast_scalar(x, t):
    k = _kind(t)
    if k == 'f':
        return lift(x)
    if k in 'iu':
        return core.trunc(x) if isinstance(lift(x), Sym) else x
    if k == 'b':
        return bor(x if is_boolish(x) else x != 0)
    return x


def astype(a, dtype):
    k = _kind(dtype)
    flat = np.asarray(a).reshape(-1)
    if k == 'f':
        out = np.empty(flat.shape, dtype=object)
        for i, v in enumerate(flat):
            out[i] = lift(v) if is_num(v) or is_boolish(v) else v
        return out.reshape(a.shape).view(SymArray)
    if k in ('i', 'u'):
        out = np.empty(flat.shape, dtype=np.int64)
        for i, v in enumerate(flat):
            v = lift(v)
            out[i] = np.array(v).astype(np.int64) if isinstance(v, float) else core.trunc(v)
        return out.reshape(a.shape)
    if k == 'b':
        out = np.empty(flat.shape, dtype=object)
        for i, v in enumerate(flat):
            out[i] = v if is_boolish(v) else (True if v != v else bor(v != 0)) if isinstance(v, float) else bor(v != 0)
        return wrap(out.reshape(a.shape)) if a.ndim else out[0]
    if k == 'O':
        return np.asarray(a).copy().view(SymArray)
    if k in ('U', 'S', 'M', 'm'):
        raise Unsupported('astype %r' % (dtype,))
    raise Unsupported('astype %r' % (dtype,))


# ---------------------------------------------------------- element kernels --

def _b(x):
    if is_boolish(x):
        return x
    return x != 0


def _isnan(x):
    return isinstance(x, float) and x != x


def _fmax(a, b):
    a, b = lift(a), lift(b)
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return smax(a, b)


def _fmin(a, b):
    a, b = lift(a), lift(b)
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return smin(a, b)


def _add(a, b):
    if is_boolish(a) and is_boolish(b):
        return bor(a, b)
    return lift(a) + lift(b)


def _mul(a, b):
    if is_boolish(a) and is_boolish(b):
        return band(a, b)
    if isinstance(a, SymBool):
        return ite(a, lift(b), 0) if not _isnan(lift(b)) else NAN
    if isinstance(b, SymBool):
        return ite(b, lift(a), 0) if not _isnan(lift(a)) else NAN
    return lift(a) * lift(b)


def _logic(op):
    def f(a, b):
        if is_boolish(a) and is_boolish(b):
            return op(a, b)
        raise Unsupported('bitwise operation on numbers')
    return f


def _xor(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) != bool(b)
    return mkbool(z3.Xor(zb(a), zb(b)))


def _eq(a, b):
    if is_boolish(a) and is_boolish(b):
        return bnot(_xor(a, b))
    return lift(a) == lift(b) if (is_num(a) or is_boolish(a)) and (is_num(b) or is_boolish(b)) else a == b


def _ne(a, b):
    return bnot(_eq(a, b))


def _cmp(op):
    return lambda a, b: op(lift(a), lift(b))


def _floor(x):
    x = lift(x)
    return x if isinstance(x, float) else Sym(Fraction(core.floor(x)))


def _ceil(x):
    x = lift(x)
    return x if isinstance(x, float) else Sym(Fraction(-core.floor(-x)))


def _trunc(x):
    x = lift(x)
    return x if isinstance(x, float) else Sym(Fraction(core.trunc(x)))


def _rint(x):
    x = lift(x)
    return x if isinstance(x, float) else Sym(Fraction(core.floor(x + Fraction(1, 2))))


def _pow(a, b):
    return lift(a) ** lift(b)


def _sgnfin(x):
    return not isinstance(x, float)


UF = {
    'add': _add, 'subtract': lambda a, b: lift(a) - lift(b), 'multiply': _mul,
    'divide': lambda a, b: _divel(a, b), 'true_divide': lambda a, b: _divel(a, b),
    'floor_divide': lambda a, b: lift(a) // lift(b),
    'remainder': lambda a, b: lift(a) % lift(b), 'mod': lambda a, b: lift(a) % lift(b),
    'power': _pow, 'float_power': _pow, 'negative': lambda a: -lift(a), 'positive': lift,
    'absolute': funcs.absolute, 'fabs': funcs.absolute, 'sign': funcs.sign,
    'square': lambda a: lift(a) * lift(a), 'reciprocal': lambda a: _divel(1, a),
    'sqrt': funcs.sqrt, 'cbrt': lambda a: funcs.power(lift(a), Sym(Fraction(1, 3))),
    'exp': funcs.exp, 'log': funcs.log, 'tanh': funcs.tanh, 'sinh': funcs.sinh, 'cosh': funcs.cosh,
    'expm1': lambda a: funcs.exp(a) - 1, 'log1p': lambda a: funcs.log(lift(a) + 1),
    'sin': funcs.sin, 'cos': funcs.cos, 'tan': funcs.tan,
    'arctan': funcs.arctan, 'arcsin': funcs.arcsin, 'arccos': funcs.arccos,
    'arctan2': funcs.arctan2, 'hypot': funcs.hypot,
    'deg2rad': funcs.deg2rad, 'radians': funcs.deg2rad,
    'rad2deg': funcs.rad2deg, 'degrees': funcs.rad2deg,
    'maximum': smax, 'minimum': smin, 'fmax': _fmax, 'fmin': _fmin,
    'less': _cmp(operator.lt), 'less_equal': _cmp(operator.le),
    'greater': _cmp(operator.gt), 'greater_equal': _cmp(operator.ge),
    'equal': _eq, 'not_equal': _ne,
    'logical_and': lambda a, b: band(_b(a), _b(b)), 'logical_or': lambda a, b: bor(_b(a), _b(b)),
    'logical_not': lambda a: bnot(_b(a)), 'logical_xor': lambda a, b: _xor(_b(a), _b(b)),
    'bitwise_and': _logic(band), 'bitwise_or': _logic(bor), 'bitwise_xor': _logic(_xor),
    'invert': lambda a: bnot(a) if is_boolish(a) else ~a, 'bitwise_not': lambda a: bnot(a),
    'isnan': lambda a: _isnan(a), 'isfinite': lambda a: not isinstance(a, float),
    'isinf': lambda a: isinstance(a, float) and a == a,
    'floor': _floor, 'ceil': _ceil, 'trunc': _trunc, 'rint': _rint,
}


def _divel(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a / b
    return core._div(a, b)


IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False,
         'bitwise_and': True, 'bitwise_or': False}


def _fold(name, xs):
    """Reduce a list of elements with a ufunc."""
    if name in ('logical_and', 'bitwise_and'):
        return band(*[_b(x) for x in xs])
    if name in ('logical_or', 'bitwise_or'):
        return bor(*[_b(x) for x in xs])
    if not xs:
        if name in IDENT:
            return lift(IDENT[name])
        raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
    if name == 'maximum':
        return smax(*xs)
    if name == 'minimum':
        return smin(*xs)
    if name == 'add':
        r = lift(xs[0])
        for x in xs[1:]:
            r = r + lift(x)
        return r
    f = UF[name]
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def reduce_axis(a, axis, fn, keepdims=False):
    """fn(list of elements) along axis (None = all)."""
    o = to_obj(a)
    if axis is None:
        r = fn(list(o.reshape(-1)))
        if keepdims:
            out = np.empty((1,) * o.ndim, dtype=object)
            out[...] = r
            return out.view(SymArray)
        return r
    if isinstance(axis, tuple):
        if len(axis) == o.ndim:
            return reduce_axis(a, None, fn, keepdims)
        raise Unsupported('reduction over several axes')
    o = np.moveaxis(o, axis, -1)
    out = np.empty(o.shape[:-1], dtype=object)
    for ix in np.ndindex(*o.shape[:-1]):
        out[ix] = fn(list(o[ix]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap(out) if out.ndim else scalar(out.item())


def elementwise(f, inputs, nout=1):
    objs = [to_obj(x) for x in inputs]
    bs = np.broadcast(*objs) if len(objs) > 1 else None
    shape = bs.shape if bs is not None else objs[0].shape
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1)
    if bs is not None:
        for i, vals in enumerate(bs):
            of[i] = f(*vals)
    else:
        for i, v in enumerate(objs[0].reshape(-1)):
            of[i] = f(v)
    return of.reshape(shape)


def store(dst, res, where=True):
    """Write result elements into an output array (in place)."""
    if isinstance(where, (bool, np.bool_)) and where is not False or where is True:
        where = None
    if where is not None:
        w = to_obj(where)
        w = np.broadcast_to(w, dst.shape)
        res = np.broadcast_to(res, dst.shape)
    if dst.dtype == object:
        d = np.asarray(dst)
        if where is None:
            d[...] = res
        else:
            for ix in np.ndindex(*dst.shape):
                d[ix] = ite(w[ix], res[ix], d[ix])
        return
    # native destination: only concrete values fit
    flat = np.broadcast_to(res, dst.shape)
    for ix in np.ndindex(*dst.shape):
        if where is not None and not bool(w[ix]):
            continue
        v = flat[ix]
        if dst.dtype.kind == 'b':
            np.asarray(dst)[ix] = bool(v)
        elif dst.dtype.kind in 'iu':
            if isinstance(v, Sym) and (v.c is None or v.c.denominator != 1):
                raise Unsupported('symbolic value into an integer array')
            np.asarray(dst)[ix] = int(v)
        else:
            np.asarray(dst)[ix] = float(v)


def concrete_mask(m):
    """Symbolic boolean array -> native bool array (forks per undecided element)."""
    flat = np.asarray(m).reshape(-1)
    out = np.empty(flat.shape, dtype=bool)
    for i, v in enumerate(flat):
        out[i] = bool(v)
    return out.reshape(m.shape)


def norm_key(k):
    if isinstance(k, tuple):
        return tuple(norm_key1(x) for x in k)
    return norm_key1(k)


def norm_key1(x):
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, Sym):
        return x.__index__()
    if isinstance(x, np.ndarray) and x.dtype == object:
        flat = x.reshape(-1)
        if flat.size == 0:
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if all(is_boolish(v) for v in flat):
            return concrete_mask(x)
        if any(isinstance(v, float) for v in flat):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if getattr(x, '_isfloat', True) and not all(isinstance(v, (int, np.integer)) for v in flat):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return np.array([int(v) for v in flat], dtype=np.int64).reshape(x.shape)
    if isinstance(x, (list, tuple)) and has_sym(list(x)):
        return norm_key1(array(list(x)))
    if isinstance(x, slice):
        return slice(*[y.__index__() if isinstance(y, (Sym, SymBool)) else y
                       for y in (x.start, x.stop, x.step)])
    return x


def _symmask(k):
    return isinstance(k, np.ndarray) and k.dtype == object and k.size > 0 and \
        all(is_boolish(v) for v in k.reshape(-1)) and any(isinstance(v, SymBool) for v in k.reshape(-1))


def _one_element(a, key):
    """Does the key address a single element (rather than a slice or a selection)?"""
    ks = key if isinstance(key, tuple) else (key,)
    return len(ks) == a.ndim and all(isinstance(k, (numbers.Integral, np.integer)) and not isinstance(k, bool) for k in ks)


class Flat(object):
    """ndarray.flat: one index into the elements in order (a one-element array assigned to it is unpacked)."""

    def __init__(self, a):
        self.a = a

    def _ix(self, k):
        k = range(self.a.size)[operator.index(k)]
        return np.unravel_index(k, self.a.shape)

    def __getitem__(self, k):
        return np.asarray(self.a)[self._ix(k)]

    def __setitem__(self, k, v):
        while isinstance(v, np.ndarray):
            if v.size != 1:
                raise ValueError('setting an array element with a sequence.')
            v = np.asarray(v).reshape(-1)[0]
        np.asarray(self.a)[self._ix(k)] = norm(v)

    def __iter__(self):
        return iter(np.asarray(self.a).reshape(-1))

    def __len__(self):
        return self.a.size


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        pass

    # ---- indexing
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, norm_key(key))
        return r

    @property
    def flat(self):
        return Flat(self)

    def __setitem__(self, key, value):
        if isinstance(value, np.ndarray) and value.ndim == 0:
            value = value.item()
        if isinstance(value, np.ndarray) and value.size == 1 and self.dtype == object and _one_element(self, key):
            value = np.asarray(value).reshape(-1)[0]
        scalar = not isinstance(value, (np.ndarray, list, tuple))
        # masked assignment of a scalar: merge instead of forking
        if scalar and self.dtype == object:
            v = norm(value)
            mask, rest = None, ()
            if _symmask(key):
                mask = key
            elif isinstance(key, tuple) and _symmask(key[0]) and all(
                    isinstance(x, (numbers.Integral, np.integer)) for x in key[1:]):
                mask, rest = key[0], key[1:]
            if mask is not None and not isinstance(v, float):
                a = np.asarray(self)
                for ix in np.ndindex(*mask.shape):
                    tgt = ix + tuple(rest)
                    c = mask[ix]
                    old = a[tgt]
                    if np.ndim(old) == 0 and not _isnan(old):
                        a[tgt] = ite(c, v, old)
                    elif bool(c):
                        a[tgt] = v
                return
            np.asarray(self)[norm_key(key)] = v
            return
        if self.dtype == object:
            np.asarray(self)[norm_key(key)] = to_obj(value)
        else:
            np.ndarray.__setitem__(self, norm_key(key), value)

    def __contains__(self, x):
        return bool(bor(*[_eq(v, x) for v in np.asarray(self).reshape(-1)]))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).item(0))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(self.reshape(-1).item(0))

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(self.reshape(-1).item(0))

    def __index__(self):
        if self.ndim == 0:
            return self.item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __format__(self, spec):
        return '<symarray>'

    def __repr__(self):
        return 'SymArray(%s)' % (np.asarray(self).tolist(),)

    __str__ = __repr__

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, **kw):
        name = ufunc.__name__
        f = UF.get(name)
        if f is None:
            return _concretised_ufunc(ufunc, method, inputs, kw)
        if method == '__call__':
            if any(not isinstance(x, (np.ndarray, list, tuple, Sym, SymBool, numbers.Number, np.generic, Fraction))
                   for x in inputs):
                return NotImplemented
            res = elementwise(f, inputs)
            if out is not None:
                dst = out[0]
                store(dst, res, where)
                return dst
            if where is not True:
                # elements outside `where` are uninitialised memory: arbitrary
                w = np.broadcast_to(to_obj(where), res.shape)
                isb = bool(res.size) and is_boolish(res.reshape(-1)[0])
                res = res.copy()
                for ix in np.ndindex(*res.shape):
                    g = SymBool(eng().fresh_bool('uninit')) if isb else Sym(None, eng().fresh('uninit'))
                    eng().incomplete.append('uninitialised memory') if False else None
                    res[ix] = ite(w[ix], res[ix], g)
                eng().memo['uninit'] = True
            return wrap(res) if res.ndim else scalar(res.item())
        if method == 'reduce':
            axis = kw.get('axis', 0)
            a = inputs[0]
            if where is not True:
                raise Unsupported('reduce with where')
            init = kw.get('initial', None)
            fold = (lambda xs: _fold(name, xs))
            if init is not None and not (isinstance(init, type(np._NoValue)) or init is np._NoValue):
                fold = (lambda xs: _fold(name, list(xs) + [init]))
            r = reduce_axis(a, axis, fold, bool(kw.get('keepdims', False)))
            if out is not None:
                store(out[0], to_obj(r))
                return out[0]
            return r
        if method == 'accumulate':
            a = to_obj(inputs[0])
            axis = kw.get('axis', 0)
            o = np.moveaxis(a, axis, -1)
            res = np.empty(o.shape, dtype=object)
            for ix in np.ndindex(*o.shape[:-1]):
                acc = None
                for j in range(o.shape[-1]):
                    acc = o[ix + (j,)] if acc is None else f(acc, o[ix + (j,)])
                    res[ix + (j,)] = acc
            return wrap(np.moveaxis(res, -1, axis))
        if method == 'outer':
            a, b = to_obj(inputs[0]), to_obj(inputs[1])
            return wrap(elementwise(f, [a.reshape(a.shape + (1,) * b.ndim), b]))
        if method == 'at':
            a, idx = inputs[0], inputs[1]
            idx = norm_key(idx)
            if len(inputs) == 2:
                a[idx] = elementwise(f, [a[idx]])
                return None
            vals = np.broadcast_to(to_obj(inputs[2]), np.shape(np.arange(a.size).reshape(a.shape)[idx]))
            pos = np.arange(a.size).reshape(a.shape)[idx].reshape(-1)
            for p, v in zip(pos, vals.reshape(-1)):
                ix = np.unravel_index(p, a.shape)
                np.asarray(a)[ix] = f(np.asarray(a)[ix], v)
            return None
        raise Unsupported('ufunc method %s.%s' % (name, method))

    # ---- functions
    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        ov = npx.OVERRIDES.get(func.__name__)
        if ov is not None and getattr(np, func.__name__, None) is func:
            return ov(*args, **kwargs)
        r = super(SymArray, self).__array_function__(
            func, [t for t in types if issubclass(t, np.ndarray)], args, kwargs)
        return npx.wrap_any(r)

    # ---- methods numpy would not route through ufuncs
    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def argmin(self, axis=None, **kw):
        from . import npx
        return npx.argmin(self, axis)

    def argmax(self, axis=None, **kw):
        from . import npx
        return npx.argmax(self, axis)

    def nonzero(self):
        from . import npx
        return npx.where(self)

    def sort(self, *a, **k):
        from . import npx
        np.asarray(self)[...] = np.asarray(npx.sort(self))

    def argsort(self, *a, **k):
        from . import npx
        return npx.argsort(self)

    def dot(self, o):
        from . import npx
        return npx.dot(self, o)

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def round(self, decimals=0, out=None):
        from . import npx
        return npx.round_(self, decimals)

    def clip(self, lo=None, hi=None, **k):
        from . import npx
        return npx.clip(self, lo, hi)

    def tolist(self):
        return np.asarray(self).tolist()

    def std(self, *a, **k):
        raise Unsupported('std')

    def searchsorted(self, v, side='left', sorter=None):
        from . import npx
        return npx.searchsorted(self, v, side)


def _concretised_ufunc(ufunc, method, inputs, kw):
    """Unknown ufunc: evaluate on one concrete value of each argument (under-approximation)."""
    conc = []
    for x in inputs:
        o = to_obj(x)
        f = np.empty(o.shape, dtype=float)
        for ix in np.ndindex(*o.shape):
            f[ix] = float(core.concretise(o[ix]))
        conc.append(f if f.ndim else f.item())
    return wrap(getattr(ufunc, method)(*conc, **kw))


class SingleArray(SymArray):
    """Values held in single precision (read from a file): kept by views and copies, lost by arithmetic and conversion."""

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)
