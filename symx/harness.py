"""The harness interface X, the same in two modes.

SymX   : inputs are solver variables, the target runs on symbolic values, and
         every `check` becomes a solver query over all values of the path.
ConcX  : inputs come from a solver model and the unmodified target runs on
         ordinary floats (counterexample replay and encoding validation).
"""
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time
import types
import builtins
import datetime as _datetime
from fractions import Fraction
import numpy as np
from . import core, arr, funcs, loader, pdx, ncx, tabx
from .core import (Sym, SymBool, lift, ite, smax, smin, band, bor, bnot, z3, num, rv, to_frac,
                   strengthen, PathAbort, Unsupported, NAN, INF)

CVC5 = 'cvc5'


class SkipReplay(BaseException):
    """A concrete replay does not satisfy the harness's assumptions."""


def _flatten(x):
    if isinstance(x, np.ndarray):
        return list(np.asarray(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += _flatten(y)
        return r
    return [x]


class Base(object):
    def arr(self, x, dtype=None):
        raise NotImplementedError

    def arange_x(self, n_left, n_right, dx):
        """Transect positions centred on the river (exact multiples of dx)."""
        return self.arr([i * dx for i in range(-n_left, n_right + 1)])

    def check_all(self, conds, label):
        for i, c in enumerate(conds):
            self.check(c, '%s[%d]' % (label, i))

    def keep(self, *arrays):
        """A check that these arrays still hold what they hold now."""
        before = [a.copy() for a in arrays]

        def unchanged(label):
            for a, b in zip(arrays, before):
                fa, fb = _flatten(a), _flatten(b)
                if len(fa) == len(fb) and all(p is q for p, q in zip(fa, fb)):
                    self.check(True, label)
                else:
                    self.close_all(a, b, label, 1e-9, nan_ok=True)
        return unchanged

    def close_all(self, a, b, label, tol=1e-6, nan_ok=False):
        fa, fb = _flatten(a), _flatten(b)
        if len(fa) != len(fb):
            self.check(False, label + ':size')
            return
        for i, (p, q) in enumerate(zip(fa, fb)):
            self.close(p, q, '%s[%d]' % (label, i), tol, nan_ok)

    def raises(self, fn, exc=Exception):
        """Run fn; the exception it raised, or None."""
        try:
            fn()
        except exc as e:
            return e
        return None


# ------------------------------------------------------------------ symbolic

class SymX(Base):
    mode = 'sym'

    def __init__(self, E, opts):
        self.E = E
        self.opts = opts
        self.found = []            # counterexamples
        self.undecided = []        # labels with no solver answer
        self.labels = {}           # label -> number of times decided
        self.observed = []         # (name, value)
        self.angles = {}
        self.reached = set()

    # inputs
    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        v = z3.Real(name)
        if name not in self.E.vars:
            self.E.vars[name] = v
            if lo is not None:
                lo = lift(lo).e
                self.E.assume(v > lo if open_lo else v >= lo)
            if hi is not None:
                hi = lift(hi).e
                self.E.assume(v < hi if open_hi else v <= hi)
        return Sym(None, v)

    def integer(self, name, lo, hi):
        return core.whole(self.real(name, lo, hi + 0.5))

    def reals(self, name, n, lo=None, hi=None, **k):
        return self.arr([self.real('%s%d' % (name, i), lo, hi, **k) for i in range(n)])

    def angle(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        """An angle in radians (bounds default to the open interval -pi..pi)."""
        p = funcs.pi()
        x = self.real(name, -p if lo is None else lo, p if hi is None else hi, open_lo, open_hi)
        s, c = funcs._base_sc(x.e)
        self.angles[name] = (x.e, s.e, c.e)
        return x

    def bool(self, name):
        v = z3.Bool(name)
        self.E.vars[name] = v
        return SymBool(v)

    def choice(self, name, opts):
        opts = list(opts)
        k = len(opts) - 1
        for i in range(len(opts) - 1):
            if self.E.decide(z3.Bool('%s#%d' % (name, i))):
                k = i
                break
        self.E.vals[name] = k
        return opts[k]

    def const(self, x):
        return lift(x)

    def arr(self, x, dtype=None):
        return arr.array(x, dtype=dtype, keep_native=False) if dtype is None else arr.array(x, dtype=dtype)

    def intarr(self, x):
        return np.array(list(x), dtype=int)

    def scalar0(self, x):
        """0-d array holding one (mutable) value."""
        o = np.empty((), dtype=object)
        o[()] = arr.norm(x)
        return o.view(arr.SymArray)

    @property
    def nan(self):
        return NAN

    def mod(self, name, stubs=None):
        return loader.SymPackage(stubs=stubs).load(name)

    def script(self, path, cols):
        """Run a script that reads one text file holding the columns `cols`; what it writes:
        [(path, options, times in seconds, {column: values})], and the options it read with."""
        opts = []

        def read(*a, **k):
            opts.append(k)
            names = k.get('names') or list(range(len(cols)))
            if len(names) != len(cols) or set(k) - {'names', 'sep', 'skiprows', 'skipinitialspace', 'header', 'delim_whitespace', 'index_col', 'engine'}:
                raise Unsupported('reading the text file')
            return tabx.Sheet(dict(zip(names, cols)))
        del tabx.WROTE[:]
        loader.SymPackage(stubs={'pandas': tabx.module(read)}).script(path)
        out = []
        for p, k, s in tabx.WROTE:
            if not isinstance(s.index, pdx.DatetimeIndex):
                raise Unsupported('written without times')
            out.append((p, k, [t.s for t in s.index.t], {c: list(v) for c, v in s.cols.items()}))
        return out, opts

    # times, series and files
    def td(self, sec):
        return pdx._td(lift(sec))

    def ts(self, sec):
        """A time, in seconds after the start of 2020."""
        return pdx.Timestamp._of(lift(sec))

    def date_text(self, day, month, hour, minute):
        """A time of 2020 as the csv files have it, and the datetime module to read it with."""
        return pdx.DateText(day, month, 2020, hour, minute)

    def datetime(self):
        m = types.ModuleType('datetime')
        m.__dict__.update(_datetime.__dict__)

        class Clock(_datetime.datetime):
            @classmethod
            def strptime(cls, text, f):
                return text.strptime(f) if isinstance(text, pdx.DateText) else _datetime.datetime.strptime(text, f)
        m.datetime = Clock
        return m

    def sec(self, t):
        return t.s

    def series(self, secs, vals):
        return pdx.Series(list(vals), index=pdx.DatetimeIndex([self.ts(s) for s in secs]))

    def frame(self, secs, cols):
        return pdx.DataFrame({k: list(v) for k, v in cols.items()}, index=pdx.DatetimeIndex([self.ts(s) for s in secs]))

    def pd(self, **extra):
        return {'pandas': pdx.module(**extra)}

    def files(self):
        """A scratch file system; `stubs()` makes the target use it."""
        return SymFiles()

    def single(self, x):
        """Whether an array is held in single precision."""
        return isinstance(x, arr.SingleArray)

    def text(self, name):
        return SymText.of(self.E, name)

    # logic
    def And(self, *xs):
        return band(*_flatten(xs))

    def Or(self, *xs):
        return bor(*_flatten(xs))

    def Not(self, x):
        return bnot(x)

    def Implies(self, a, b):
        return bor(bnot(a), b)

    def Iff(self, a, b):
        return core.mkbool(core.zb(a) == core.zb(b))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def max(self, *xs):
        return smax(*_flatten(xs))

    def min(self, *xs):
        return smin(*_flatten(xs))

    def abs(self, x):
        return abs(lift(x))

    def sum(self, xs):
        r = lift(0)
        for x in _flatten(xs):
            r = r + lift(x)
        return r

    def sqrt(self, x):
        return funcs.sqrt(lift(x))

    def pow(self, a, b):
        return funcs.power(lift(a), lift(b))

    def frac(self, x):
        return Sym(Fraction(x))

    def exp(self, x):
        return funcs.exp(x)

    def log(self, x):
        return funcs.mathlog(x)

    def tanh(self, x):
        return funcs.tanh(x)

    def sinh(self, x):
        return funcs.sinh(x)

    def floor(self, x):
        return core.floor(x)

    def sin(self, x):
        return funcs.sin(x)

    def cos(self, x):
        return funcs.cos(x)

    def arctan(self, x):
        return funcs.arctan(x)

    def pi(self):
        return funcs.pi()

    def isnan(self, x):
        x = arr.norm(x)
        return isinstance(x, float) and x != x

    def finite(self, x):
        return not isinstance(arr.norm(x), float)

    def is_true(self, x):
        """Decide (fork on) a condition."""
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        return bool(x)

    def assume(self, c):
        c = core.zb(c) if not isinstance(c, (builtins.bool, np.bool_)) else z3.BoolVal(builtins.bool(c))
        self.E.assume(c)
        r, m = self.E._check()
        if r == z3.unsat:
            raise PathAbort()
        if m is not None:
            self.E.model, self.E.model_valid = m, True

    def observe(self, name, v):
        for i, x in enumerate(_flatten(v)):
            self.observed.append(('%s[%d]' % (name, i), arr.norm(x)))

    def reach(self, label):
        self.reached.add(label)

    # the property queries
    def check(self, cond, label, use=False):
        """Decide cond on this path; `use` keeps it as a fact for later queries."""
        if isinstance(cond, np.ndarray):
            cond = band(*_flatten(cond))
        if isinstance(cond, (builtins.bool, np.bool_)):
            self.labels[label] = self.labels.get(label, 0) + 1
            self.E.stats.prop_queries += 1
            if cond:
                self.E.stats.proved += 1
            else:
                self._violation(z3.BoolVal(True), label)
                raise PathAbort()
            return
        n = len(self.undecided) + len(self.found)
        self._query(z3.Not(core.zb(cond)), label)
        if use and len(self.undecided) + len(self.found) == n:
            self.E.add_def(core.zb(cond))

    def close(self, a, b, label, tol=1e-6, nan_ok=False):
        a, b = arr.norm(a), arr.norm(b)
        if isinstance(a, (builtins.bool, SymBool)) and isinstance(b, (builtins.bool, SymBool)):
            return self.check(self.Iff(a, b), label)
        a, b = lift(a), lift(b)
        if isinstance(a, float) or isinstance(b, float):
            same = isinstance(a, float) and isinstance(b, float) and \
                (a == b or (a != a and b != b and nan_ok))
            return self.check(same, label)
        if a.c is not None and b.c is not None:
            return self.check(abs(a.c - b.c) <= to_frac(tol) * max(1, abs(b.c)), label)
        d = z3.simplify(a.e - b.e, som=True)
        if z3.is_rational_value(d) and num(d) == 0:
            self.labels[label] = self.labels.get(label, 0) + 1
            self.E.stats.prop_queries += 1
            self.E.stats.proved += 1
            return
        t = rv(to_frac(tol))
        self._query(z3.Or(a.e - b.e > t, b.e - a.e > t), label, first=a.e != b.e)
        return

    def _query(self, neg, label, first=None):
        st = self.E.stats
        st.prop_queries += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if linear_unsat(self.E, neg):
            st.proved += 1
            return
        if first is not None:
            r, _ = self._solve(first, quick=True)
            if r == z3.unsat:
                st.proved += 1
                return
        r, m = self._solve(neg)
        if r == z3.unsat:
            st.proved += 1
        elif r == z3.sat:
            self._violation(neg, label, m)
        else:
            st.unknown += 1
            self.undecided.append(label)

    def _solve(self, neg, quick=False):
        E = self.E
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            return z3.unsat, None
        t0 = time.time()
        s = E.solver
        s.push()
        s.set('timeout', 800 if quick else self.opts.get('prop_ms', 2500))
        s.add(neg)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        s.set('timeout', E.feas_ms)
        if r == z3.unknown and not quick:
            r, m = portfolio(E.pc + E.defs + [neg], self.opts.get('deep_ms', 4000))
        E.stats.solver_s += time.time() - t0
        return r, m

    def _violation(self, neg, label, model=None):
        cex = self.make_cex(neg, label)
        if cex is None and model is not None:
            cex = self.values_of(model)
            cex['eps'] = 0
        if cex is None:
            self.undecided.append(label)
            return
        cex['label'] = label
        self.found.append(cex)

    def make_cex(self, neg, label):
        """A model of pc & neg, as robust as the solver can find quickly."""
        E = self.E
        t0 = time.time()
        try:
            for eps in (Fraction(1, 100), Fraction(1, 10000), Fraction(1, 10 ** 6), None):
                s = z3.Solver()
                s.set('timeout', 2000)
                for d in E.defs:
                    s.add(d)
                for c in E.pc + [neg]:
                    s.add(c if eps is None else strengthen(c, eps))
                r = s.check()
                if r != z3.sat:
                    continue
                m, ok = refine(E, s, s.model())
                v = self.values_of(m)
                v['eps'] = 0 if eps is None else float(eps)
                v['refined'] = ok
                return v
        finally:
            E.stats.solver_s += time.time() - t0
        r, m = portfolio(E.pc + E.defs + [neg], 4000)
        if r == z3.sat and m is not None:
            v = self.values_of(m)
            v['eps'] = 0
            v['refined'] = not E.approx
            return v
        return None

    def values_of(self, m):
        vals = {}
        for name, v in self.E.vars.items():
            e = m.eval(v, model_completion=True)
            if z3.is_bool(v):
                vals[name] = z3.is_true(e)
            elif z3.is_string(v):
                vals[name] = e.as_string()
            elif name in self.angles:
                th, s, c = self.angles[name]
                s, c = num(m.eval(s, model_completion=True)), num(m.eval(c, model_completion=True))
                a = math.atan2(float(s), float(c))
                want = float(num(e))
                vals[name] = repr(a + 2 * math.pi * round((want - a) / (2 * math.pi)))
            else:
                vals[name] = str(num(e))
        return {'values': vals, 'choices': dict(self.E.vals)}

    def witness(self):
        """A robust model of the path and what the encoding predicts there."""
        E = self.E
        t0 = time.time()
        try:
            for eps in (Fraction(1, 100), Fraction(1, 10 ** 5), None):
                s = z3.Solver()
                s.set('timeout', 1000)
                for d in E.defs:
                    s.add(d)
                for c in E.pc:
                    s.add(c if eps is None else strengthen(c, eps))
                r = s.check()
                if r != z3.sat:
                    continue
                m, ok = refine(E, s, s.model())
                w = self.values_of(m)
                w['eps'] = 0 if eps is None else float(eps)
                w['refined'] = ok
                obs = []
                for name, v in self.observed:
                    if isinstance(v, Sym):
                        if v.c is not None:
                            obs.append((name, float(v.c)))
                            continue
                        try:
                            obs.append((name, float(num(m.eval(v.e, model_completion=True)))))
                        except Unsupported:
                            pass
                    elif isinstance(v, SymBool):
                        obs.append((name, z3.is_true(m.eval(v.b, model_completion=True))))
                    elif isinstance(v, (builtins.bool, np.bool_, int, float, np.integer)):
                        obs.append((name, v if not isinstance(v, np.generic) else v.item()))
                w['observed'] = obs
                return w
        finally:
            E.stats.solver_s += time.time() - t0
        return None


_TRUE_F = {'tanh': math.tanh, 'sinh': math.sinh, 'exp': math.exp, 'log': math.log}


def refine(E, s, m):
    """Pin uninterpreted functions to their true values at the model's arguments."""
    if not E.approx:
        return m, True
    items = []
    for k, lst in list(E.memo.items()):
        if isinstance(k, tuple) and k[0] == 'apps' and k[1] in _TRUE_F:
            items += [(a, r, _TRUE_F[k[1]]) for a, r in lst]
    for a, b, r in E.memo.get('upows', []):
        items.append(((a, b), r, None))
    ok = True
    for a, r, f in items:
        try:
            if f is None:
                va, vb = num(m.eval(a[0], model_completion=True)), num(m.eval(a[1], model_completion=True))
                va, vb = va.limit_denominator(10 ** 6), vb.limit_denominator(10 ** 6)
                val = to_frac(float(va) ** float(vb))
                extra = [a[0] == rv(va), a[1] == rv(vb), r == rv(val)]
            else:
                va = num(m.eval(a, model_completion=True)).limit_denominator(10 ** 6)
                extra = [a == rv(va), r == rv(to_frac(f(float(va))))]
        except (ValueError, OverflowError, ZeroDivisionError, Unsupported):
            ok = False
            continue
        s.push()
        for x in extra:
            s.add(x)
        if s.check() == z3.sat:
            m = s.model()
        else:
            s.pop()
            ok = False
    return m, ok


def linear_unsat(E, neg):
    """Is neg refuted by the linear abstraction of the path condition?"""
    return E.lin_refutes(neg)


def portfolio(lits, ms):
    """Fresh solvers on one conjunction: z3 default, z3 nlsat, then cvc5."""
    best = z3.unknown
    for tac in (None, 'nlsat'):
        if tac is None:
            s = z3.Solver()
        else:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith',
                        'elim-term-ite', 'solve-eqs', 'qfnra-nlsat').solver()
        s.set('timeout', ms)
        for x in lits:
            s.add(x)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return r, None
        if r == z3.sat:
            return r, s.model()
    if ms >= 3000:
        s = z3.Solver()
        for x in lits:
            s.add(x)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=True) as f:
            f.write(txt)
            f.flush()
            try:
                out = subprocess.run([CVC5, '--tlimit=%d' % ms, '--nl-cov', f.name],
                                     capture_output=True, text=True, timeout=ms / 1000 + 5).stdout
            except (subprocess.TimeoutExpired, OSError):
                out = ''
        if out.startswith('unsat'):
            return z3.unsat, None
    return best, None


class SymFiles(object):
    """Result files in memory."""

    def __init__(self):
        self.fs = ncx.FileSystem()

    def stubs(self):
        return {'netCDF4': self.fs.netcdf(), 'os': self.fs.os()}

    def path(self, name):
        return '/scratch/' + name

    def put(self, path, text):
        self.fs.files[path] = text

    def remove(self, path):
        self.fs.files.pop(path)

    def get(self, path):
        """None, the text put there, or 'results' for a result file."""
        f = self.fs.files.get(path)
        return f if f is None or isinstance(f, str) else 'results'

    def dataset(self, path):
        return ncx.Dataset(self.fs, path, 'r')

    def masked(self, v):
        v = np.asarray(v).reshape(-1)
        return any(x is ncx.MASKED for x in v)


class RealFiles(object):
    """Result files in a scratch directory, removed at the end of the run."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='symx-')

    def stubs(self):
        return {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, path, text):
        with open(path, 'w') as f:
            f.write(text)

    def remove(self, path):
        os.unlink(path)

    def get(self, path):
        if not os.path.isfile(path):
            return None
        with open(path, 'rb') as f:
            b = f.read()
        return 'results' if b[:4] in (b'\x89HDF', b'CDF\x01', b'CDF\x02') else b.decode()

    def dataset(self, path):
        import netCDF4
        return netCDF4.Dataset(path, 'r')

    def masked(self, v):
        return bool(np.any(np.ma.getmaskarray(v)))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class SymText(str):
    """A text of any value: a z3 string `z`, seen through `fold` (None, str.lower or str.upper)."""
    __hash__ = None
    SPACE = ' \t\n\r'

    def __new__(cls, z, fold=None):
        t = str.__new__(cls, '?')
        t.z, t.fold = z, fold
        return t

    @staticmethod
    def of(E, name):
        z = z3.String(name)
        E.vars[name] = z
        return SymText(z)

    def _forms(self, o):
        """The texts that read as `o` once folded."""
        import itertools
        o = str(o)
        if self.fold is None:
            return [o]
        if self.fold(o) != o:
            return []
        if len(o) > 6:
            raise Unsupported('case folding')
        return sorted({''.join(c) for c in itertools.product(*[{x.lower(), x.upper()} for x in o])})

    def _any(self, fs):
        fs = list(fs)
        return bool(core.mkbool(z3.Or(*fs))) if fs else False

    def __eq__(self, o):
        if isinstance(o, SymText):
            if self.fold is not o.fold:
                raise Unsupported('comparing folded texts')
            return self.fold is not None and z3.eq(self.z, o.z) or bool(core.mkbool(self.z == o.z))
        if not isinstance(o, str):
            return False
        return self._any(self.z == z3.StringVal(c) for c in self._forms(o))

    def __ne__(self, o):
        return not self == o

    def __len__(self):
        for n in range(12):
            if bool(core.mkbool(z3.Length(self.z) == n)):
                return n
        raise Unsupported('length of a symbolic text')

    def __bool__(self):
        return not self._any([self.z == z3.StringVal('')])

    def lower(self):
        return SymText(self.z, str.lower)

    def upper(self):
        return SymText(self.z, str.upper)

    casefold = lower

    def capitalize(self):
        raise Unsupported('text method capitalize')

    title = swapcase = capitalize

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith')
        return self._any(z3.PrefixOf(z3.StringVal(c), self.z) for q in (p if isinstance(p, tuple) else (p,)) for c in self._forms(q))

    def endswith(self, p, *a):
        if a:
            raise Unsupported('endswith')
        return self._any(z3.SuffixOf(z3.StringVal(c), self.z) for q in (p if isinstance(p, tuple) else (p,)) for c in self._forms(q))

    def __contains__(self, o):
        return self._any(z3.Contains(self.z, z3.StringVal(c)) for c in self._forms(o))

    def within(self, o):
        """self in o, for a known text o"""
        o = str(o)
        return self._any(self.z == z3.StringVal(c) for q in sorted({o[i:j] for i in range(len(o) + 1) for j in range(i, len(o) + 1)})
                         for c in self._forms(q))

    def _cut(self, left, right, chars=None):
        chars = self.SPACE if chars is None else chars
        if not chars:
            return self
        E = core.eng()
        E.ntext = getattr(E, 'ntext', 0) + 1
        r, a, b = [z3.String('text!%d%s' % (E.ntext, k)) for k in 'rab']
        one = [z3.Re(z3.StringVal(c)) for c in chars]
        ws = z3.Star(z3.Union(*one) if len(one) > 1 else one[0])
        fs = [self.z == z3.Concat(a, r, b), z3.InRe(a, ws), z3.InRe(b, ws)]
        for on, side, test in ((left, a, z3.PrefixOf), (right, b, z3.SuffixOf)):
            if on:
                fs += [z3.Not(test(z3.StringVal(c), r)) for c in chars]
            else:
                fs.append(side == z3.StringVal(''))
        E.add_def(z3.And(*fs))
        return SymText(r, self.fold)

    def strip(self, chars=None):
        return self._cut(True, True, chars)

    def lstrip(self, chars=None):
        return self._cut(True, False, chars)

    def rstrip(self, chars=None):
        return self._cut(False, True, chars)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1) and k.start in (None, 0) and k.stop is not None and k.stop >= 0:
            return SymText(z3.SubString(self.z, 0, k.stop), self.fold)
        if k == 0 or k == -1:
            if not self:
                raise IndexError('string index out of range')
            return SymText(z3.SubString(self.z, 0 if k == 0 else z3.Length(self.z) - 1, 1), self.fold)
        raise Unsupported('characters of a symbolic text')

    def __iter__(self):
        raise Unsupported('characters of a symbolic text')

    def __getattribute__(self, k):
        if k in ('split', 'find', 'index', 'replace', 'encode', 'join', 'isdigit', 'count', 'partition', 'rfind', 'splitlines', 'isalpha'):
            raise Unsupported('text method ' + k)
        return str.__getattribute__(self, k)


# ------------------------------------------------------------------ concrete

class ConcX(Base):
    mode = 'real'

    def __init__(self, cex, slack=0.5):
        self.cex = cex
        self.slack = slack
        self.failed = []
        self.checked = 0
        self.observed = []
        self.reached = set()

    def _val(self, name, default=None):
        # inputs first used after the point the counterexample was found at may
        # take any value
        if name not in self.cex['values']:
            if default is None:
                raise SkipReplay('input %s is not in the counterexample' % name)
            return default
        return self.cex['values'][name]

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        lo_, hi_ = (None if v is None or abs(v) == math.inf else Fraction(float(v)) for v in (lo, hi))
        d = (lo_ + hi_) / 2 if lo_ is not None and hi_ is not None else lo_ + 1 if lo_ is not None else hi_ - 1 if hi_ is not None else 0
        v = float(Fraction(self._val(name, d)))
        if lo is not None and v < lo - 1e-9 or hi is not None and v > hi + 1e-9:
            raise SkipReplay('%s out of range' % name)
        return v

    def integer(self, name, lo, hi):
        return math.floor(self.real(name, lo, hi + 0.5))

    def reals(self, name, n, lo=None, hi=None, **k):
        return self.arr([self.real('%s%d' % (name, i), lo, hi, **k) for i in range(n)])

    def angle(self, name, *a, **k):
        return float(self._val(name, 0.25))

    def bool(self, name):
        return bool(self._val(name, False))

    def choice(self, name, opts):
        return list(opts)[self.cex['choices'].get(name, 0)]

    def const(self, x):
        return float(x)

    def arr(self, x, dtype=None):
        a = np.array(x, dtype=dtype)
        return a.astype(float) if dtype is None and a.dtype.kind in 'iu' else a

    def intarr(self, x):
        return np.array(list(x), dtype=int)

    def scalar0(self, x):
        return np.asarray(float(x))

    @property
    def nan(self):
        return NAN

    def mod(self, name, stubs=None):
        if stubs:
            return RealPackage(stubs).load(name)
        return loader.real_module(name)

    def script(self, path, cols):
        import pandas as pd
        opts, out = [], []

        def read(*a, **k):
            opts.append(k)
            return pd.DataFrame(dict(zip(k.get('names') or range(len(cols)), cols)))

        def write(s, p=None, **k):
            out.append((p, k, [self.sec(t) for t in s.index], {c: list(s[c]) for c in s.columns}))
        m = types.ModuleType('pandas')
        m.__dict__.update(pd.__dict__)
        m.read_table = m.read_csv = read
        orig = pd.DataFrame.to_csv
        pd.DataFrame.to_csv = write
        try:
            RealPackage({'pandas': m}).script(path)
        finally:
            pd.DataFrame.to_csv = orig
        return out, opts

    def td(self, sec):
        import pandas as pd
        return pd.Timedelta(int(round(Fraction(sec) * 10**9)), unit='ns')

    def ts(self, sec):
        import pandas as pd
        return pd.Timestamp('2020-01-01') + self.td(sec)

    def date_text(self, day, month, hour, minute):
        return '%02d/%02d/2020 %02d:%02d' % (day, month, hour, minute)

    def datetime(self):
        return _datetime

    def sec(self, t):
        import pandas as pd
        if isinstance(t, (pd.Timedelta, np.timedelta64)):
            return pd.Timedelta(t).value / 1e9
        return (pd.Timestamp(t) - pd.Timestamp('2020-01-01')).value / 1e9

    def series(self, secs, vals):
        import pandas as pd
        return pd.Series([float(v) for v in vals], index=pd.DatetimeIndex([self.ts(s) for s in secs]))

    def frame(self, secs, cols):
        import pandas as pd
        return pd.DataFrame({k: [float(x) for x in v] for k, v in cols.items()}, index=pd.DatetimeIndex([self.ts(s) for s in secs]))

    def pd(self, **extra):
        if not extra:
            return {}
        import pandas as pd
        m = types.ModuleType('pandas')
        m.__dict__.update(pd.__dict__)
        m.__dict__.update(extra)
        return {'pandas': m}

    def files(self):
        f = RealFiles()
        self.scratch = getattr(self, 'scratch', []) + [f]
        return f

    def single(self, x):
        return np.asarray(x).dtype.itemsize < 8

    def text(self, name):
        return self._val(name)

    def And(self, *xs):
        return all(bool(x) for x in _flatten(xs))

    def Or(self, *xs):
        return any(bool(x) for x in _flatten(xs))

    def Not(self, x):
        return not bool(x)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def max(self, *xs):
        return float(np.max(_flatten(xs)))

    def min(self, *xs):
        return float(np.min(_flatten(xs)))

    def abs(self, x):
        return abs(float(x))

    def sum(self, xs):
        return float(sum(_flatten(xs)))

    def sqrt(self, x):
        return float(np.sqrt(x))

    def pow(self, a, b):
        return float(a) ** float(b)

    def frac(self, x):
        return float(Fraction(x))

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def tanh(self, x):
        return math.tanh(x)

    def sinh(self, x):
        return math.sinh(x)

    def floor(self, x):
        return math.floor(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def arctan(self, x):
        return math.atan(x)

    def pi(self):
        return math.pi

    def isnan(self, x):
        return bool(np.isnan(x))

    def finite(self, x):
        return bool(np.isfinite(x))

    def is_true(self, x):
        return bool(x)

    def assume(self, c):
        if not bool(np.all(c)):
            raise SkipReplay('assumption does not hold')

    def observe(self, name, v):
        for i, x in enumerate(_flatten(v)):
            self.observed.append(('%s[%d]' % (name, i), x.item() if isinstance(x, np.generic) else x))

    def reach(self, label):
        self.reached.add(label)

    def check(self, cond, label, use=False):
        self.checked += 1
        if not bool(np.all(cond)):
            self.failed.append((label, ''))

    def close(self, a, b, label, tol=1e-6, nan_ok=False):
        self.checked += 1
        a, b = float(a), float(b)
        if nan_ok and a != a and b != b:
            return
        if a == b:
            return
        # solver margins are absolute; allow for rounding of large magnitudes
        if not abs(a - b) <= max(tol * self.slack, 1e-9 * max(abs(a), abs(b))):
            self.failed.append((label, '%r vs %r' % (a, b)))


class RealPackage(object):
    """The unmodified source run by the ordinary interpreter with selected imports replaced."""

    def __init__(self, stubs):
        self.stubs = dict(stubs)
        self.repo = loader.REPO
        self.modules = {}
        self.pkg = types.ModuleType(loader.PKG)
        self.pkg.__path__ = [os.path.join(loader.REPO, loader.PKG)]
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: None
        b.update(self.stubs.pop('__builtins__', {}))
        self.builtins = b

    _import = loader.SymPackage._import_stubs

    def load(self, name):
        if loader.PKG + '.' + name in self.stubs:
            return self.stubs[loader.PKG + '.' + name]
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(loader.REPO, loader.PKG, name + '.py')
        with open(path, encoding='utf-8') as f:
            code = compile(f.read(), path, 'exec')
        m = types.ModuleType(loader.PKG + '.' + name)
        m.__file__ = path
        m.__package__ = loader.PKG
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        exec(code, m.__dict__)
        return m

    def script(self, path):
        path = os.path.join(loader.REPO, path)
        with open(path, encoding='utf-8') as f:
            code = compile(f.read(), path, 'exec')
        m = types.ModuleType('__main__')
        m.__dict__['__builtins__'] = self.builtins
        exec(code, m.__dict__)
        return m
