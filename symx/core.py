"""Symbolic scalars, path engine and solver interface.

A `Sym` is a real number: an exact rational constant or a z3 Real term.  A
`SymBool` is a z3 Bool term; taking its truth value asks the current engine to
decide it, which forks the execution when both answers are feasible under the
path condition.  NaN and infinities never live inside terms: they are ordinary
Python floats, so whether a value is NaN is always concrete on a path.
"""
import sys
import time
import math
import numbers
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3          # noqa: E402
import numpy as np  # noqa: E402

NAN = float('nan')
INF = float('inf')


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(BaseException):
    """The code did something this engine cannot encode."""


class BoundExceeded(BaseException):
    """A stated bound (decisions on a path) was exceeded."""


class TimeUp(BaseException):
    """The time budget of this case is used up."""


# ---------------------------------------------------------------- engine ----

class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.feas_queries = 0
        self.prop_queries = 0
        self.proved = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.aborted = 0
        self.concretised = 0
        self.unsupported = 0
        self.bound_exceeded = 0
        self.timeup = 0
        self.validated = 0
        self.validation_skipped = 0
        self.mismatch = 0

    def merge(self, other):
        for k, v in other.__dict__.items():
            setattr(self, k, getattr(self, k, 0) + v)


class Purifier(object):
    """Abstracts each nonlinear monomial by a variable: unsat of the result is unsat of the original."""

    def __init__(self):
        self.lit = {}      # id -> (expr kept alive, purified)
        self.term = {}
        self.mono = {}

    def literal(self, e):
        k = e.get_id()
        if k not in self.lit:
            s = z3.simplify(e, som=True, som_blowup=5)
            self.lit[k] = (e, s, self.walk(s))
        return self.lit[k][2]

    def fresh(self, key, sort, keep):
        if key not in self.mono:
            self.mono[key] = (z3.FreshConst(sort, 'mono'), keep)
        return self.mono[key][0]

    def walk(self, e):
        k = e.get_id()
        hit = self.term.get(k)
        if hit is not None:
            return hit[1]
        r = e
        if z3.is_app(e) and e.num_args():
            kind = e.decl().kind()
            ch = e.children()
            if kind == z3.Z3_OP_MUL:
                nums = [c for c in ch if z3.is_rational_value(c)]
                rest = [c for c in ch if not z3.is_rational_value(c)]
                if len(rest) == 1:
                    r = self.walk(rest[0])
                else:
                    fl = []
                    for c in rest:
                        fl += self.factors(c)
                    r = self.fresh(('*',) + tuple(sorted(f.get_id() for f in fl)), e.sort(), fl)
                for n in nums:
                    r = n * r
            elif kind in (z3.Z3_OP_POWER,):
                fl = self.factors(e)
                r = self.fresh(('*',) + tuple(sorted(f.get_id() for f in fl)), e.sort(), fl)
            elif kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_UNINTERPRETED):
                r = self.fresh(('t', k), e.sort(), e)
            else:
                nc = [self.walk(c) for c in ch]
                if any(a.get_id() != b.get_id() for a, b in zip(nc, ch)):
                    r = e.decl()(*nc)
        self.term[k] = (e, r)
        return r

    def factors(self, c):
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(c.arg(1)):
            n = num(c.arg(1))
            if n.denominator == 1 and 0 < n <= 8:
                return self.factors(c.arg(0)) * int(n)
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
            r = []
            for x in c.children():
                r += self.factors(x)
            return r
        return [c]


class Engine(object):
    """One symbolic execution (one path) of a harness case."""

    cur = None

    def __init__(self, prefix, stats, feas_ms=1500, max_decisions=4000, deadline=None, name_div=False, loose=False):
        self.prefix = prefix
        self.trace = []            # list of recorded choices
        self.pending = []          # alternative prefixes discovered on this path
        self.stats = stats
        self.feas_ms = feas_ms
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_ms)
        self.pc = []               # path condition: branch literals and assumptions
        self.defs = []             # definitional constraints (roots, trig facts ...)
        self.cache = {}            # ast id -> (ast, bool)
        self.model = None
        self.model_valid = False
        self.nfresh = 0
        self.vars = {}             # declared inputs: name -> z3 const
        self.memo = {}             # memo tables of functions (roots, trig ...)
        self.incomplete = []       # reasons this path is an under-approximation
        self.approx = []           # reasons this path relies on uninterpreted functions
        self.name_div = name_div
        # leave out the facts about roots and angles (what is proved then holds without them)
        self.loose = loose
        self.vals = {}             # declared concrete choices: name -> value
        self.pur = Purifier()
        self.lin = None            # linear abstraction of pc and defs
        self.nlin = [0, 0]         # how much of pc and defs it has
        self.lincache = {}

    # -- variables
    def fresh(self, tag):
        self.nfresh += 1
        return z3.Real('%s!%d' % (tag, self.nfresh))

    def fresh_bool(self, tag):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (tag, self.nfresh))

    # -- solver
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise TimeUp()
        t = time.time()
        self.stats.feas_queries += 1
        s = self.solver
        if extra:
            s.push()
            for e in extra:
                s.add(e)
        r = s.check()
        m = s.model() if r == z3.sat else None
        if extra:
            s.pop()
        self.stats.solver_s += time.time() - t
        return r, m

    def add(self, lit, define=False):
        (self.defs if define else self.pc).append(lit)
        self.solver.add(lit)
        if self.model_valid and self.model is not None:
            v = self.model.eval(lit, model_completion=True)
            if not z3.is_true(v):
                self.model_valid = False

    def lin_refutes(self, lit):
        """True when the linear abstraction of the path (nonlinear monomials as free
        variables) has no solution with lit: then the path has none either."""
        lit = z3.simplify(lit)
        if z3.is_false(lit):
            return True
        if z3.is_true(lit):
            return False
        t = time.time()
        if self.lin is None:
            self.lin = z3.SolverFor('QF_LRA')
            self.lin.set('rlimit', 2000000)
        for k, src in enumerate((self.pc, self.defs)):
            while self.nlin[k] < len(src):
                self.lin.add(self.pur.literal(src[self.nlin[k]]))
                self.nlin[k] += 1
        self.lin.push()
        self.lin.add(self.pur.literal(lit))
        r = self.lin.check()
        self.lin.pop()
        self.stats.solver_s += time.time() - t
        return r == z3.unsat

    def lin_dead(self):
        """Does the linear abstraction show that no input takes this path?"""
        self.lin_refutes(z3.Bool('alive!'))
        r = self.lin.check()
        return r == z3.unsat

    def lin_value(self, cond):
        """True or False when the linear abstraction settles cond, else None."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        hit = self.lincache.get(k)
        at = len(self.pc) + len(self.defs)
        if hit is not None and (hit[1] is not None or hit[2] == at):
            return hit[1]
        v = True if self.lin_refutes(z3.Not(cond)) else (False if self.lin_refutes(cond) else None)
        self.lincache[k] = (cond, v, at)
        return v

    def add_def(self, lit):
        """A constraint that defines a fresh variable (always satisfiable)."""
        self.add(lit, define=True)

    def get_model(self):
        if not self.model_valid:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort()
            self.model = m
            self.model_valid = m is not None
        return self.model

    def assume(self, lit):
        lit = z3.simplify(lit)
        if z3.is_true(lit):
            return
        if z3.is_false(lit):
            raise PathAbort()
        self.add(lit)
        c, sign = lit, True
        while z3.is_not(c):
            c, sign = c.arg(0), not sign
        self.cache[c.get_id()] = (c, sign)

    def record(self, val):
        self.trace.append(val)
        self.stats.decisions += 1
        if len(self.trace) > self.max_decisions:
            raise BoundExceeded('more than %d decisions' % self.max_decisions)

    def decide(self, cond):
        """Truth value of a z3 Bool on this path; forks when both are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        sign = True
        while z3.is_not(cond):
            cond = cond.arg(0)
            sign = not sign
        hit = self.cache.get(cond.get_id())
        if hit is not None:
            return hit[1] == sign
        pos = len(self.trace)
        if pos < len(self.prefix):
            val = self.prefix[pos]
            self.record(val)
            self._commit(cond, val & 1 == 1, val & 2 == 2)
            return (val & 1 == 1) == sign
        ncond = z3.Not(cond)
        v = self.lin_value(cond)
        forced = v is not None
        if not forced:
            m = self.get_model()
            if m is not None:
                mv = m.eval(cond, model_completion=True)
                v = True if z3.is_true(mv) else (False if z3.is_false(mv) else None)
        if forced:
            pass
        elif v is None:
            r1, m1 = self._check(cond)
            if r1 == z3.unsat:
                v, forced = False, True
            else:
                v = True
                r2, m2 = self._check(ncond)
                forced = r2 == z3.unsat
                if r1 == z3.sat:
                    self.model, self.model_valid = m1, True
                elif r2 == z3.sat:
                    pass
        else:
            r2, m2 = self._check(ncond if v else cond)
            forced = r2 == z3.unsat
        if not forced:
            self.stats.forks += 1
            self.pending.append(self.trace + [0 if v else 1])
        self.record((1 if v else 0) + (2 if forced else 0))
        self._commit(cond, v, forced)
        return v == sign

    def _commit(self, cond, val, forced):
        lit = cond if val else z3.Not(cond)
        self.add(lit, define=forced)       # a forced literal is a consequence, not a choice
        self.cache[cond.get_id()] = (cond, val)

    def choose_value(self, fn):
        """A recorded value picked from the current model (used by floor etc.)."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            val = self.prefix[pos]
            self.record(val)
            return val
        m = self.get_model()
        if m is None:
            raise Unsupported('no model to pick a value from')
        val = fn(m)
        self.record(val)
        return val

    def entailed(self, cond):
        """True when pc implies cond (no fork, no record: deterministic use only)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        r, _ = self._check(z3.Not(cond))
        return r == z3.unsat


    def implied(self, cond):
        """Like entailed, but recorded, so that re-execution sees the same answer."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            val = self.prefix[pos]
        else:
            self.solver.set('timeout', 400)
            val = self.entailed(cond)
            self.solver.set('timeout', self.feas_ms)
        self.record(val)
        return val


def eng():
    if Engine.cur is None:
        raise RuntimeError('no engine is running')
    return Engine.cur


# -------------------------------------------------------------- numerics ----

def num(v):
    """z3 model value -> Fraction (algebraic numbers are approximated)."""
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    raise Unsupported('cannot read model value %s' % v)


_RV = {}


def rv(fr):
    r = _RV.get(fr)
    if r is None:
        r = z3.RealVal(str(fr))
        if len(_RV) < 20000:
            _RV[fr] = r
    return r


def to_frac(x):
    """Finite python/numpy number -> Fraction, reading floats as the decimal they print as."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        return Fraction(repr(float(x)))
    raise TypeError('not a number: %r' % (x,))


class Sym(object):
    __slots__ = ('c', '_e', 'parts', 'neg')
    __hash__ = None

    def __init__(self, c=None, e=None, parts=None):
        self.c = c
        self._e = e
        self.parts = parts      # max(parts) when not None

    @property
    def e(self):
        if self._e is None:
            if self.c is not None:
                self._e = rv(self.c)
            else:
                E = Engine.cur
                if E is not None and E.name_div:
                    es = {x.get_id(): x for x in (p.e for p in self.parts)}
                    es = [es[k] for k in sorted(es)]
                    key = ('max',) + tuple(x.get_id() for x in es)
                    hit = E.memo.get(key)
                    if hit is None:
                        v = E.fresh('max')
                        E.memo[key] = hit = (es, v)
                        E.add_def(z3.And(*[v >= x for x in es]))
                        E.add_def(z3.Or(*[v == x for x in es]))
                    self._e = hit[1]
                    return self._e
                ex = self.parts[0].e
                for p in self.parts[1:]:
                    ex = z3.If(ex >= p.e, ex, p.e)
                self._e = ex
        return self._e

    # -- arithmetic
    def __add__(self, o):
        return _bin(self, o, _add)

    def __radd__(self, o):
        return _bin(o, self, _add)

    def __sub__(self, o):
        return _bin(self, o, _sub)

    def __rsub__(self, o):
        return _bin(o, self, _sub)

    def __mul__(self, o):
        return _bin(self, o, _mul)

    def __rmul__(self, o):
        return _bin(o, self, _mul)

    def __truediv__(self, o):
        return _bin(self, o, _div)

    def __rtruediv__(self, o):
        return _bin(o, self, _div)

    def __floordiv__(self, o):
        return _bin(self, o, _floordiv)

    def __rfloordiv__(self, o):
        return _bin(o, self, _floordiv)

    def __mod__(self, o):
        return _bin(self, o, _mod)

    def __rmod__(self, o):
        return _bin(o, self, _mod)

    def __pow__(self, o):
        from . import funcs
        return _bin(self, o, funcs.power)

    def __rpow__(self, o):
        from . import funcs
        return _bin(o, self, funcs.power)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        if self.c is not None:
            return Sym(-self.c)
        return Sym(None, -self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return Sym(abs(self.c))
        return smax(self, -self)

    # -- comparison
    def __lt__(self, o):
        return _cmp(self, o, '<')

    def __le__(self, o):
        return _cmp(self, o, '<=')

    def __gt__(self, o):
        return _cmp(self, o, '>')

    def __ge__(self, o):
        return _cmp(self, o, '>=')

    def __eq__(self, o):
        return _cmp(self, o, '==')

    def __ne__(self, o):
        return _cmp(self, o, '!=')

    def __bool__(self):
        if self.c is not None:
            return self.c != 0
        return eng().decide(self.e != 0)

    # -- conversions
    def __float__(self):
        if self.c is not None:
            return float(self.c)
        return float(concretise(self))

    def __int__(self):
        return trunc(self)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, nd=None):
        if nd is None:
            return floor(self + Fraction(1, 2))
        raise Unsupported('round(x, n)')

    def __index__(self):
        if self.c is not None:
            if self.c.denominator != 1:
                raise TypeError('only integers can be indices')
            return int(self.c)
        k = floor(self)
        if eng().decide(self.e == k):
            return k
        raise TypeError('only integers can be indices')

    def __repr__(self):
        return 'Sym(%s)' % (self.c if self.c is not None else self.e)

    def __str__(self):
        return '<sym>' if self.c is None else str(float(self.c))

    def __format__(self, spec):
        return '<sym>' if self.c is None else format(float(self.c), spec)

    # numpy-scalar look-alikes
    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, t)

    def any(self):
        return self != 0

    all = any

    def max(self):
        return self

    min = max
    sum = max
    mean = max

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(object):
    __slots__ = ('b',)
    __hash__ = None

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return eng().decide(self.b)

    def __and__(self, o):
        return band(self, o) if not _isarr(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o) if not _isarr(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if _isarr(o):
            return NotImplemented
        return mkbool(z3.Xor(self.b, zb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.b))

    def num(self):
        return Sym(None, z3.If(self.b, rv(Fraction(1)), rv(Fraction(0))))

    def _n(self, o, op):
        return op(self.num(), o)

    def __add__(self, o):
        return self.num() + o

    def __radd__(self, o):
        return o + self.num()

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return _bin(self, o, _mul)

    def __rmul__(self, o):
        return _bin(o, self, _mul)

    def __truediv__(self, o):
        return self.num() / o

    def __neg__(self):
        return -self.num()

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return mkbool(self.b == o.b)
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __repr__(self):
        return 'SymBool(%s)' % self.b

    def __format__(self, spec):
        return '<symbool>'

    def any(self):
        return self

    all = any

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, t)

    def __deepcopy__(self, memo):
        return self


def _isarr(o):
    return isinstance(o, np.ndarray)


def mkbool(b):
    """z3 Bool -> python bool when constant, else SymBool."""
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def zb(o):
    if isinstance(o, SymBool):
        return o.b
    if isinstance(o, Sym):
        if o.c is not None:
            return z3.BoolVal(o.c != 0)
        return o.e != 0
    if isinstance(o, np.ndarray) and o.size == 1:
        return zb(o.reshape(-1)[0])
    return z3.BoolVal(bool(o))


def band(*xs):
    zs = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        zs.append(zb(x))
    if not zs:
        return True
    return mkbool(z3.And(*zs)) if len(zs) > 1 else mkbool(zs[0])


def bor(*xs):
    zs = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        zs.append(zb(x))
    if not zs:
        return False
    return mkbool(z3.Or(*zs)) if len(zs) > 1 else mkbool(zs[0])


def bnot(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    return mkbool(z3.Not(zb(x)))


def lift(x):
    """number -> Sym / non-finite float; SymBool -> Sym; Sym unchanged."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, (bool, np.bool_)):
        return Sym(Fraction(int(x)))
    if isinstance(x, numbers.Integral):
        if isinstance(x, np.timedelta64):               # times are held in ns
            return Sym(Fraction(int(x / np.timedelta64(1, 'ns'))))
        return Sym(Fraction(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return x
        return Sym(Fraction(repr(x)))
    if isinstance(x, Fraction):
        return Sym(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise TypeError('not a number: %r' % (type(x),))


def mk(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return Sym(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return Sym(None, e)


def _bin(a, b, op):
    if isinstance(a, np.ndarray) and a.ndim > 0 or isinstance(b, np.ndarray) and b.ndim > 0:
        return NotImplemented
    if isinstance(a, SymBool) and op is _mul:
        return ite(a, lift(b), Sym(Fraction(0)))
    if isinstance(b, SymBool) and op is _mul:
        return ite(b, lift(a), Sym(Fraction(0)))
    try:
        a = lift(a)
        b = lift(b)
    except TypeError:
        return NotImplemented
    return op(a, b)


def sign_fork(x):
    """-1, 0, 1 for a Sym (forks)."""
    if x.c is not None:
        return (x.c > 0) - (x.c < 0)
    if eng().decide(x.e > 0):
        return 1
    if eng().decide(x.e < 0):
        return -1
    return 0


def _nonfin2(a, b, op):
    """op with at least one non-finite float operand."""
    fa = a if isinstance(a, float) else None
    fb = b if isinstance(b, float) else None
    if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
        return NAN
    if op == '+':
        if fa is not None and fb is not None:
            return fa + fb
        return fa if fa is not None else fb
    if op == '*':
        sa = (1 if fa > 0 else -1) if fa is not None else sign_fork(a)
        sb = (1 if fb > 0 else -1) if fb is not None else sign_fork(b)
        s = sa * sb
        return NAN if s == 0 else (INF if s > 0 else -INF)
    raise AssertionError(op)


def _neg(x):
    return -x


def _add(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _nonfin2(a, b, '+')
    if a.c is not None:
        if b.c is not None:
            return Sym(a.c + b.c)
        if a.c == 0:
            return b
    elif b.c is not None and b.c == 0:
        return a
    return Sym(None, a.e + b.e)


def _sub(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _nonfin2(a, _neg(b), '+')
    if b.c is not None:
        if a.c is not None:
            return Sym(a.c - b.c)
        if b.c == 0:
            return a
    elif a.c is None and (a.e is b.e or z3.eq(a.e, b.e)):
        return Sym(Fraction(0))
    return Sym(None, a.e - b.e)


def _mul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _nonfin2(a, b, '*')
    if a.c is not None and b.c is not None:
        return Sym(a.c * b.c)
    if b.c is not None:
        a, b = b, a
    if a.c is not None:
        if a.c == 0:
            return Sym(Fraction(0))
        if a.c == 1:
            return b
        if b.parts is not None and a.c > 0:
            return Sym(None, None, [_mul(a, p) for p in b.parts])
    elif 'polar' in eng().memo:
        r = _polar(eng().memo, a, b)
        if r is not None:
            return r
    return Sym(None, a.e * b.e)


def _polar(memo, a, b):
    """distance * sin or cos of (constant +- bearing) = a linear combination of the coordinates."""
    for x, y in ((a, b), (b, a)):
        h = memo['polar'].get(x.e.get_id())
        if h is not None:
            for r, th, py, px in h:
                k = memo.get(('polar-sc', y.e.get_id()))
                if k is not None and k[1].eq(th):
                    return mk(z3.simplify((_mul(Sym(k[2]), py) + _mul(Sym(k[3]), px)).e, som=True))
    return None


def _div(a, b):
    if isinstance(b, float):
        if math.isnan(b) or isinstance(a, float):
            return NAN
        return Sym(Fraction(0))
    if isinstance(a, float):
        if math.isnan(a):
            return NAN
        s = sign_fork(b)
        return a if s >= 0 else -a
    if b.c is not None:
        if b.c == 0:
            s = sign_fork(a)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        return _mul(Sym(1 / b.c), a)
    if eng().decide(b.e == 0):
        s = sign_fork(a)
        return NAN if s == 0 else (INF if s > 0 else -INF)
    if a.c is not None and a.c == 0:
        return a
    E = eng()
    if not E.name_div:
        return Sym(None, a.e / b.e)
    # a quotient is named: q with q*b == a
    (ka, ae), (kb, be) = _coeff(z3.simplify(a.e)), _coeff(z3.simplify(b.e))
    k = ka / kb
    key = ('div', ae.get_id(), be.get_id())
    hit = E.memo.get(key)
    if hit is None:
        q = E.fresh('quot')
        E.memo[key] = hit = (ae, be, q)
        E.add_def(q * be == ae)
        E.model_valid = False
    return Sym(None, hit[2]) if k == 1 else _mul(Sym(k), Sym(None, hit[2]))


def _coeff(e):
    """e = k * rest, k a number"""
    if z3.is_rational_value(e):
        return num(e), rv(Fraction(1))
    if z3.is_mul(e) and z3.is_rational_value(e.arg(0)) and e.num_args() > 1:
        r = [e.arg(i) for i in range(1, e.num_args())]
        return num(e.arg(0)), z3.Product(*r) if len(r) > 1 else r[0]
    return Fraction(1), e


def floor(x):
    """Integer floor (forks over feasible integer values)."""
    x = lift(x)
    if isinstance(x, float):
        raise (ValueError if math.isnan(x) else OverflowError)('cannot convert float to integer')
    if x.c is not None:
        return math.floor(x.c)
    E = eng()
    for _ in range(400):
        k = E.choose_value(lambda m: math.floor(num(m.eval(x.e, model_completion=True))))
        if E.decide(z3.And(x.e >= k, x.e < k + 1)):
            return k
    raise Unsupported('floor of a term with too large a range')


def whole(x):
    """Integer floor as a term (no forks)."""
    x = lift(x)
    if isinstance(x, float):
        raise (ValueError if math.isnan(x) else OverflowError)('cannot convert float to integer')
    if x.c is not None:
        return lift(math.floor(x.c))
    return Sym(None, z3.ToReal(z3.ToInt(x.e)))


def trunc(x):
    x = lift(x)
    if isinstance(x, float):
        raise (ValueError if math.isnan(x) else OverflowError)('cannot convert float to integer')
    if x.c is not None:
        return math.trunc(x.c)
    if eng().decide(x.e >= 0):
        return floor(x)
    return -floor(-x)


def _floordiv(a, b):
    q = _div(a, b)
    if isinstance(q, float):
        return q
    return Sym(Fraction(floor(q)))


def _mod(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    q = _div(a, b)
    if isinstance(q, float):
        return NAN
    return _sub(a, _mul(b, Sym(Fraction(floor(q)))))


def _cmp(a, b, op):
    if isinstance(b, np.ndarray) and b.ndim > 0:
        return NotImplemented
    try:
        a = lift(a)
        b = lift(b)
    except TypeError:
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if isinstance(a, float) or isinstance(b, float):
        # one side NaN or infinite, the other finite (or both non-finite)
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
    elif a.c is not None and b.c is not None:
        fa, fb = a.c, b.c
    else:
        if op in ('>', '>='):
            a, b, op = b, a, ('<' if op == '>' else '<=')
        # a < b or a <= b, with max-terms distributed
        if op in ('<', '<='):
            pa = a.parts if a.parts is not None else None
            pb = b.parts if b.parts is not None else None
            if pa is not None and pb is None:
                return band(*[_cmp(p, b, op) for p in pa])
            if pb is not None and pa is None:
                return bor(*[_cmp(a, p, op) for p in pb])
            return mkbool(a.e < b.e if op == '<' else a.e <= b.e)
        if op == '==':
            return mkbool(a.e == b.e)
        return mkbool(a.e != b.e)
    if op == '<':
        return fa < fb
    if op == '<=':
        return fa <= fb
    if op == '>':
        return fa > fb
    if op == '>=':
        return fa >= fb
    if op == '==':
        return fa == fb
    return fa != fb


def ite(c, a, b):
    """Merge two values under a condition (forks only when they cannot merge)."""
    if isinstance(c, np.ndarray):
        c = c.item()
    if isinstance(c, Sym):
        c = c != 0
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    known = eng().lin_value(c.b)
    if known is not None:
        return a if known else b
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkbool(z3.If(c.b, zb(a), zb(b)))
    a = lift(a)
    b = lift(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)):
            return a
        return a if bool(c) else b
    if a.c is not None and b.c is not None and a.c == b.c:
        return a
    if a is b or (a.c is None and b.c is None and z3.eq(a.e, b.e)):
        return a
    return Sym(None, z3.If(c.b, a.e, b.e))


def smax(*xs):
    """NaN-propagating maximum (numpy maximum)."""
    xs = [lift(x) for x in xs]
    if any(isinstance(x, float) and x != x for x in xs):
        return NAN
    if any(isinstance(x, float) and x == INF for x in xs):
        return INF
    fin = [x for x in xs if not isinstance(x, float)]
    if not fin:
        return -INF
    parts = []
    const = None
    for x in fin:
        for p in (x.parts if x.parts is not None else [x]):
            if p.c is not None:
                const = p.c if const is None or p.c > const else const
            elif not any(p is q or z3.eq(p.e, q.e) for q in parts):
                parts.append(p)
    if not parts:
        return Sym(const)
    if const is not None:
        parts = [Sym(const)] + parts
    if 2 <= len(parts) <= 4:
        # drop parts known to be no greater than another
        E = eng()
        i = 0
        while i < len(parts) and len(parts) > 1:
            if any(q is not parts[i] and E.lin_value(parts[i].e <= q.e) is True for q in parts):
                del parts[i]
            else:
                i += 1
    if len(parts) == 1:
        return parts[0]
    return Sym(None, None, parts)


def smin(*xs):
    xs = [lift(x) for x in xs]
    if any(isinstance(x, float) and x != x for x in xs):
        return NAN
    if any(isinstance(x, float) and x == -INF for x in xs):
        return -INF
    fin = [x for x in xs if not isinstance(x, float)]
    if not fin:
        return INF
    r = fin[0]
    for p in fin[1:]:
        if r.c is not None and p.c is not None:
            r = r if r.c <= p.c else p
        elif r is p or z3.eq(r.e, p.e):
            pass
        else:
            known = eng().lin_value(r.e <= p.e)
            if known is not None:
                r = r if known else p
            else:
                r = Sym(None, z3.If(r.e <= p.e, r.e, p.e))
    return r


def concretise(x):
    """Under-approximate: fix a term to a model value (the path is marked incomplete)."""
    x = lift(x)
    if isinstance(x, float):
        return x
    if x.c is not None:
        return x.c
    E = eng()
    v = E.choose_value(lambda m: num(m.eval(x.e, model_completion=True)))
    E.assume(x.e == rv(v))
    E.incomplete.append('a symbolic value was fixed to one of its values')
    E.stats.concretised += 1
    return v


# ------------------------------------------------------ robust strengthening

def strengthen(lit, eps, pol=True):
    """A literal implying `lit`, with every inequality holding by a margin eps."""
    e = rv(eps)
    if z3.is_not(lit):
        return strengthen(lit.arg(0), eps, not pol)
    if z3.is_and(lit):
        ch = [strengthen(c, eps, pol) for c in lit.children()]
        return z3.And(*ch) if pol else z3.Or(*ch)
    if z3.is_or(lit):
        ch = [strengthen(c, eps, pol) for c in lit.children()]
        return z3.Or(*ch) if pol else z3.And(*ch)
    k = lit.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = lit.arg(0), lit.arg(1)
        less = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) == pol
        return a + e <= b if less else a >= b + e
    if k == z3.Z3_OP_EQ and lit.arg(0).sort() == z3.RealSort() and not pol:
        a, b = lit.arg(0), lit.arg(1)
        return z3.Or(a + e <= b, a >= b + e)
    return lit if pol else z3.Not(lit)
