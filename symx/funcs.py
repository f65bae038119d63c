"""Roots, trigonometry and other functions on symbolic reals.

Exact encodings: rational powers (a fresh root variable t with t^q = base),
sin/cos/arctan/arcsin/arctan2 (a unit vector per base angle, angle-addition
formulas, sign facts per quadrant).  Uninterpreted with true facts only:
tanh, exp, log and powers with a symbolic exponent (paths using them are
marked `approx`).
"""
import math
from fractions import Fraction
from .core import (Sym, SymBool, eng, lift, rv, mk, ite, z3, NAN, INF, smax, smin,
                   Unsupported, _div, _mul, band, bor, mkbool)

PI = Fraction(repr(math.pi))


def pi():
    """The double nearest to pi stands for pi (angle facts are stated relative to it)."""
    return Sym(PI)


def rational_exponent(b):
    """p/q for an exponent constant (floats like 1/3 are read as the fraction)."""
    if b.denominator <= 64:
        return b
    r = b.limit_denominator(64)
    if abs(r - b) < Fraction(1, 10 ** 12):
        return r
    return None


def _fconst(v):
    return lift(float(v))


def ipow(a, n):
    r = None
    base = a
    if n == 0:
        return Sym(Fraction(1))
    for _ in range(n):
        r = base if r is None else _mul(r, base)
    return r


def _squares(e):
    """Whether a term is a sum of squares as written."""
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(_squares(c) for c in e.children())
    if k == z3.Z3_OP_MUL:
        c = e.children()
        return len(c) == 2 and c[0].eq(c[1])
    return z3.is_rational_value(e) and e.as_fraction() >= 0


def root(a, q):
    """q-th root of a symbolic a >= 0."""
    E = eng()
    a = _plain(a) if E.loose else mk(a.e)
    if a.c is not None:
        return _fconst(float(a.c) ** (1.0 / q))
    key = ('root', a.e.get_id(), q)
    hit = E.memo.get(key)
    if hit is None:
        for (e2, t2) in E.memo.get(('roots', q), []):
            d = z3.simplify(a.e - e2, som=True)
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                return Sym(None, t2)
        t = E.fresh('root%d' % q)
        E.memo[key] = hit = (a.e, t)
        E.memo.setdefault(('roots', q), []).append(hit)
        E.add_def(t >= 0)
        if E.loose:
            E.approx.append('root')
            return Sym(None, t)
        p = t
        for _ in range(q - 1):
            p = p * t
        E.add_def(p == a.e)
        E.model_valid = False
    return Sym(None, hit[1])


def power(a, b):
    if isinstance(b, float) or isinstance(a, float):
        if not isinstance(b, float) and b.c is not None and b.c == 0:
            return Sym(Fraction(1))
        if isinstance(a, float) and not isinstance(b, float) and b.c is not None:
            return lift(a ** float(b.c))
        return NAN
    if b.c is None:
        return upow(a, b)
    ex = rational_exponent(b.c)
    if ex is not None and ex.denominator == 1:
        n = int(ex)
        if a.c is not None and abs(n) <= 64:
            if a.c == 0 and n < 0:
                return INF
            return Sym(a.c ** n)
        if abs(n) > 24:
            raise Unsupported('power %d' % n)
        if n >= 0:
            return ipow(a, n)
        return _div(Sym(Fraction(1)), ipow(a, -n))
    if a.c is not None:
        if a.c < 0:
            return NAN
        if a.c == 0:
            return Sym(Fraction(0)) if b.c > 0 else INF
        return _fconst(float(a.c) ** float(b.c))
    E = eng()
    if not _squares(a.e) and E.decide(a.e < 0):
        return NAN
    if ex is None:
        return upow(a, b)
    n, q = ex.numerator, ex.denominator
    if n < 0:
        r = power(a, Sym(-b.c))
        return _div(Sym(Fraction(1)), r)
    t = root(a, q)
    whole, part = divmod(n, q)
    r = ipow(t, part)
    if whole:
        r = _mul(ipow(a, whole), r)
    return r


def _pairs(E, name, key, arg, r, inc=True, odd=False):
    """Congruence and monotonicity against earlier applications of `name`."""
    lst = E.memo.setdefault(('apps', name), [])
    for (arg2, r2) in lst:
        if z3.is_rational_value(arg) and z3.is_rational_value(arg2):
            continue
        E.add_def(z3.And(z3.Implies(arg < arg2, r < r2 if inc else r > r2),
                         z3.Implies(arg == arg2, r == r2),
                         z3.Implies(arg > arg2, r > r2 if inc else r < r2)))
        if odd:
            E.add_def(z3.Implies(arg == -arg2, r == -r2))
    lst.append((arg, r))
    E.model_valid = False


def _uf(name, x, facts, odd=False):
    E = eng()
    key = (name, x.e.get_id())
    hit = E.memo.get(key)
    if hit is None:
        r = E.fresh(name)
        E.memo[key] = hit = (x.e, r)
        for f in facts(x.e, r):
            E.add_def(f)
        _pairs(E, name, key, x.e, r, odd=odd)
        E.approx.append(name)
    return Sym(None, hit[1])


def upow(a, b):
    """a**b with a symbolic exponent (or an odd constant one): uninterpreted."""
    E = eng()
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    if E.decide(a.e < 0):
        return NAN
    if E.decide(a.e == 0):
        if E.decide(b.e > 0):
            return Sym(Fraction(0))
        return Sym(Fraction(1)) if E.decide(b.e == 0) else INF
    key = ('upow', a.e.get_id(), b.e.get_id())
    hit = E.memo.get(key)
    if hit is None:
        r = E.fresh('pow')
        E.memo[key] = hit = (a.e, b.e, r)
        E.add_def(r > 0)
        E.add_def(z3.Implies(a.e == 1, r == 1))
        E.add_def(z3.Implies(b.e > 0, z3.And(z3.Implies(a.e > 1, r > 1),
                                             z3.Implies(a.e < 1, r < 1))))
        for (a2, b2, r2) in E.memo.setdefault('upows', []):
            E.add_def(z3.Implies(z3.And(b.e == b2, b.e > 0),
                                 z3.And(z3.Implies(a.e < a2, r < r2),
                                        z3.Implies(a.e == a2, r == r2),
                                        z3.Implies(a.e > a2, r > r2))))
        E.memo['upows'].append((a.e, b.e, r))
        E.model_valid = False
        E.approx.append('pow')
    return Sym(None, hit[2])


def _num1(x):
    return lift(x)


def sqrt(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x > 0 else NAN
    return power(x, Sym(Fraction(1, 2)))


def absolute(x):
    x = lift(x)
    return abs(x)


def sign(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN if x != x else lift(1 if x > 0 else -1)
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def exp(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN if x != x else (INF if x > 0 else Sym(Fraction(0)))
    if x.c is None:
        e = z3.simplify(x.e, som=True)
        x = Sym(e.as_fraction()) if z3.is_rational_value(e) else Sym(None, e)
    if x.c is not None:
        v = _fconst(math.exp(float(x.c)))
        key = ('exp-const', x.c)
        if isinstance(v, Sym) and key not in eng().memo:
            # ordered against the applications to symbolic arguments
            eng().memo[key] = v
            _pairs(eng(), 'exp', key, rv(x.c), rv(v.c))
        return v
    return _uf('exp', x, lambda a, r: [r > 0, r >= 1 + a, z3.Implies(a > 0, r > 1),
                                       z3.Implies(a < 0, r < 1), z3.Implies(a == 0, r == 1)])


def log(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN if not x > 0 else INF
    if x.c is not None:
        if x.c <= 0:
            return NAN if x.c < 0 else -INF
        return _fconst(math.log(float(x.c)))
    E = eng()
    # the inverse of an exponential already met
    xe = z3.simplify(x.e)
    for key, hit in E.memo.items():
        if isinstance(key, tuple) and key[0] == 'exp' and hit[1].eq(xe):
            return Sym(None, hit[0])
    if E.decide(x.e <= 0):
        return -INF if E.decide(x.e == 0) else NAN
    return _uf('log', x, lambda a, r: [r <= a - 1, z3.Implies(a > 1, r > 0),
                                       z3.Implies(a < 1, r < 0), z3.Implies(a == 1, r == 0)])


def mathlog(x):
    x = lift(x)
    r = log(x)
    if isinstance(r, float) and not (isinstance(x, float)):
        raise ValueError('math domain error')
    return r


def tanh(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN if x != x else lift(1 if x > 0 else -1)
    if x.c is not None:
        return _fconst(math.tanh(float(x.c)))
    return _uf('tanh', x, lambda a, r: [r > -1, r < 1, z3.Implies(a > 0, z3.And(r > 0, r < a)),
                                        z3.Implies(a < 0, z3.And(r < 0, r > a)),
                                        z3.Implies(a == 0, r == 0)], odd=True)


def sinh(x):
    x = lift(x)
    if isinstance(x, float):
        return x
    if x.c is not None:
        return _fconst(math.sinh(float(x.c)))
    E = eng()
    n = len(E.memo.get(('apps', 'sinh'), []))
    r = _uf('sinh', x, lambda a, r: [z3.Implies(a > 0, r > a), z3.Implies(a < 0, r < a), z3.Implies(a == 0, r == 0)], odd=True)
    if len(E.memo[('apps', 'sinh')]) > n:
        for a, t in E.memo.get(('apps', 'tanh'), []):
            E.add_def(z3.Implies(x.e == 2 * a, r.e * (1 - t * t) == 2 * t))
        E.model_valid = False
    return r


def cosh(x):
    s = sinh(x)
    return abs(s) if isinstance(s, float) else sqrt(s * s + 1)


# ------------------------------------------------------------------ angles --

def _linear(e, coef, out):
    """Accumulate e*coef into out: {atom id: [atom, coef]} plus key None = constant."""
    if z3.is_rational_value(e):
        out[None][1] += coef * Fraction(e.numerator_as_long(), e.denominator_as_long())
        return
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        for c in e.children():
            _linear(c, coef, out)
        return
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        _linear(ch[0], coef, out)
        for c in ch[1:]:
            _linear(c, -coef, out)
        return
    if k == z3.Z3_OP_UMINUS:
        _linear(e.arg(0), -coef, out)
        return
    if k == z3.Z3_OP_MUL:
        cst = Fraction(1)
        rest = []
        for c in e.children():
            if z3.is_rational_value(c):
                cst *= Fraction(c.numerator_as_long(), c.denominator_as_long())
            else:
                rest.append(c)
        if len(rest) == 1:
            _linear(rest[0], coef * cst, out)
            return
        if not rest:
            out[None][1] += coef * cst
            return
    if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)):
        d = e.arg(1)
        _linear(e.arg(0), coef / Fraction(d.numerator_as_long(), d.denominator_as_long()), out)
        return
    ent = out.setdefault(e.get_id(), [e, Fraction(0)])
    ent[1] += coef


def _range_facts(th, s, c, p):
    h = p / 2
    return [z3.Implies(z3.And(th > 0, th < p), s > 0),
            z3.Implies(z3.And(th > -p, th < 0), s < 0),
            z3.Implies(z3.And(th > p, th < 2 * p), s < 0),
            z3.Implies(z3.And(th > -2 * p, th < -p), s > 0),
            z3.Implies(z3.And(th > -h, th < h), c > 0),
            z3.Implies(z3.And(th > h, th < 3 * h), c < 0),
            z3.Implies(z3.And(th > -3 * h, th < -h), c < 0),
            z3.Implies(z3.Or(th == 0), z3.And(s == 0, c == 1)),
            z3.Implies(th == h, z3.And(s == 1, c == 0)),
            z3.Implies(th == -h, z3.And(s == -1, c == 0)),
            z3.Implies(z3.Or(th == p, th == -p), z3.And(s == 0, c == -1))]


def _base_sc(e):
    """(sin, cos) variables of a base angle term."""
    E = eng()
    key = ('sc', e.get_id())
    hit = E.memo.get(key)
    if hit is None:
        s, c = E.fresh('sin'), E.fresh('cos')
        E.memo[key] = hit = (e, s, c)
        if E.loose:
            E.approx.append('angle')
            return Sym(None, s), Sym(None, c)
        E.add_def(s * s + c * c == 1)
        E.add_def(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        p = pi().e
        for f in _range_facts(e, s, c, p):
            E.add_def(f)
        # congruence and evenness/oddness between base angles
        for (e2, s2, c2) in E.memo.setdefault('scs', []):
            E.add_def(z3.Implies(e == e2, z3.And(s == s2, c == c2)))
            E.add_def(z3.Implies(e == -e2, z3.And(s == -s2, c == c2)))
        E.memo.setdefault('scs', []).append(hit)
        E.model_valid = False
    return Sym(None, hit[1]), Sym(None, hit[2])


def _snap(x):
    """The sine or cosine of a constant; of directions through points of whole numbers exactly, where asked for."""
    if eng().loose:
        r = Fraction(x).limit_denominator(1000)
        if abs(r - Fraction(x)) < Fraction(1, 10 ** 15):
            return Sym(r)
    return _fconst(x)


def _unit(a):
    """Sine and cosine of a constant, exactly on the unit circle (or the angle facts would contradict each other)."""
    s, c = _snap(math.sin(a)), _snap(math.cos(a))
    if s.c * s.c + c.c * c.c != 1:
        t = Fraction(math.tan(a / 2))
        s, c = Sym(2 * t / (1 + t * t)), Sym((1 - t * t) / (1 + t * t))
    return s, c


def _plain(x):
    e = z3.simplify(x.e, som=True)
    return Sym(e.as_fraction()) if z3.is_rational_value(e) else Sym(None, e)


def sincos(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN, NAN
    E = eng()
    if x.c is not None:
        if x.c == 0:
            return Sym(Fraction(0)), Sym(Fraction(1))
        return _fconst(math.sin(float(x.c))), _fconst(math.cos(float(x.c)))
    xe = z3.simplify(x.e)
    key = ('sctot', xe.get_id())
    hit = E.memo.get(key)
    if hit is not None:
        return hit[1], hit[2]
    out = {None: [None, Fraction(0)]}
    _linear(xe, Fraction(1), out)
    const = out.pop(None)[1]
    p = rv(PI)
    s, c = Sym(Fraction(0)), Sym(Fraction(1))
    natoms = 0
    terms = []
    for _, (atom, coef) in sorted(out.items()):
        if coef == 0:
            continue
        if coef.denominator == 1 and abs(coef) <= 4:
            terms.append((atom, int(coef)))
        else:
            terms.append((z3.simplify(rv(coef) * atom), 1))
    q = round(const / (PI / 2))
    const -= q * (PI / 2)
    if abs(const) < Fraction(1, 10 ** 12):
        const = Fraction(0)
    for atom, n in terms:
        sa, ca = _base_sc(atom)
        if n < 0:
            sa = -sa
        for _ in range(abs(n)):
            natoms += 1
            s, c = s * ca + c * sa, c * ca - s * sa
    if const != 0:
        sc_, cc_ = _unit(float(const))
        s, c = s * cc_ + c * sc_, c * cc_ - s * sc_
    for _ in range(q % 4):
        s, c = c, -s
    polar = None
    if natoms == 1 and 'polar' in E.memo:
        # as a combination of the sine and cosine of the one angle
        f = (Fraction(1), Fraction(0))
        if const != 0:
            f = (cc_.c, sc_.c)
        a, b = (terms[0][1] * f[0], f[1]), (-terms[0][1] * f[1], f[0])
        for _ in range(q % 4):
            a, b = b, (-a[0], -a[1])
        polar = (a, b)
    if natoms > 1 or (natoms and const != 0):
        vs, vc = E.fresh('sinsum'), E.fresh('cossum')
        if not E.loose:
            E.add_def(z3.And(vs == s.e, vc == c.e))
            E.add_def(vs * vs + vc * vc == 1)
        E.add_def(z3.And(vs >= -1, vs <= 1, vc >= -1, vc <= 1))
        s, c = Sym(None, vs), Sym(None, vc)
    if natoms and not E.loose and (natoms > 1 or q or const != 0):
        for f in _range_facts(xe, s.e, c.e, p):
            E.add_def(f)
        E.model_valid = False
    E.memo[key] = (xe, s, c)
    if polar:
        for v, (u, w) in zip((s, c), polar):
            if v.c is None:
                E.memo[('polar-sc', v.e.get_id())] = (v.e, terms[0][0], u, w)
    return s, c


def sin(x):
    return sincos(x)[0]


def cos(x):
    return sincos(x)[1]


def tan(x):
    s, c = sincos(x)
    return s / c if isinstance(s, Sym) else NAN


def _set_sc(theta, s, c):
    """Register known sin/cos terms for a fresh angle variable."""
    E = eng()
    hit = (theta, s, c)
    E.memo[('sc', theta.get_id())] = hit
    for (e2, s2, c2) in () if E.loose else E.memo.setdefault('scs', []):
        E.add_def(z3.Implies(theta == e2, z3.And(s == s2, c == c2)))
        E.add_def(z3.Implies(theta == -e2, z3.And(s == -s2, c == c2)))
    E.memo.setdefault('scs', []).append(hit)


def arctan(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN if x != x else (pi() / 2 if x > 0 else -pi() / 2)
    if x.c is not None:
        return _fconst(math.atan(float(x.c)))
    E = eng()
    xe = z3.simplify(x.e)
    key = ('arctan', xe.get_id())
    hit = E.memo.get(key)
    if hit is None:
        for (x2, th2) in list(E.memo.get('arctans', [])):
            if E.implied(xe == -x2):
                return Sym(None, -th2)
            if E.implied(xe == x2):
                return Sym(None, th2)
        th, s, c = E.fresh('atan'), E.fresh('sin'), E.fresh('cos')
        p = pi().e
        E.memo[key] = hit = (xe, th)
        E.memo.setdefault('arctans', []).append(hit)
        E.add_def(z3.And(th > -p / 2, th < p / 2, c > 0, c <= 1, s > -1, s < 1))
        E.add_def(z3.And(s * s + c * c == 1, s == xe * c))
        E.add_def(z3.And(z3.Implies(xe > 0, z3.And(th > 0, s > 0, th <= xe)),
                         z3.Implies(xe < 0, z3.And(th < 0, s < 0, th >= xe)),
                         z3.Implies(xe == 0, z3.And(th == 0, s == 0, c == 1))))
        _pairs(E, 'arctan', key, xe, th, odd=True)
        _set_sc(th, s, c)
        E.model_valid = False
    return Sym(None, hit[1])


def arcsin(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN
    if x.c is not None:
        if abs(x.c) > 1:
            return NAN
        return _fconst(math.asin(float(x.c)))
    E = eng()
    if E.decide(z3.Or(x.e > 1, x.e < -1)):
        return NAN
    xe = x.e
    key = ('arcsin', xe.get_id())
    hit = E.memo.get(key)
    if hit is None:
        th, c = E.fresh('asin'), E.fresh('cos')
        p = pi().e
        E.memo[key] = hit = (xe, th)
        E.add_def(z3.And(th >= -p / 2, th <= p / 2, c >= 0, c <= 1, xe * xe + c * c == 1))
        E.add_def(z3.And(z3.Implies(xe > 0, th > 0), z3.Implies(xe < 0, th < 0),
                         z3.Implies(xe == 0, th == 0), z3.Implies(xe == 1, th == p / 2),
                         z3.Implies(xe == -1, th == -p / 2)))
        _pairs(E, 'arcsin', key, xe, th, odd=True)
        _set_sc(th, xe, c)
        E.model_valid = False
    return Sym(None, hit[1])


def arccos(x):
    a = arcsin(x)
    return NAN if isinstance(a, float) else pi() / 2 - a


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if isinstance(x, float) or isinstance(y, float):
        return NAN
    E = eng()
    if E.loose:
        y, x = _plain(y), _plain(x)
    if y.c is not None and x.c is not None:
        return _fconst(math.atan2(float(y.c), float(x.c)))
    if E.decide(z3.And(x.e == 0, y.e == 0)):
        return Sym(Fraction(0))
    key = ('arctan2', y.e.get_id(), x.e.get_id())
    hit = E.memo.get(key)
    if hit is None:
        th, s, c = E.fresh('atan2'), E.fresh('sin'), E.fresh('cos')
        r = root(mk(x.e * x.e + y.e * y.e), 2)
        p = pi().e
        E.memo[key] = hit = (y.e, x.e, th)
        E.add_def(z3.And(th > -p, th <= p, r.e > 0))
        if not E.loose:
            E.add_def(z3.And(y.e == r.e * s, x.e == r.e * c, s * s + c * c == 1,
                             s >= -1, s <= 1, c >= -1, c <= 1))
            for f in _range_facts(th, s, c, p):
                E.add_def(f)
        else:
            E.approx.append('angle')
        _set_sc(th, s, c)
        E.memo.setdefault('polar', {}).setdefault(r.e.get_id(), []).append((r, th, y, x))
        E.model_valid = False
    return Sym(None, hit[2])


def deg2rad(x):
    x = lift(x)
    return NAN if isinstance(x, float) else x * pi() / 180


def rad2deg(x):
    x = lift(x)
    return NAN if isinstance(x, float) else x * 180 / pi()


def hypot(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    return sqrt(a * a + b * b)
