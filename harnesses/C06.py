"""Steady river hydraulics (riv.solveSteady)."""
import pars_base
FUNCS = ['hapuamod/riv.py:solveSteady']
BOUNDS = ('2 cross-sections (thorough: 3), at most 2 Newton iterations per section (thorough: 3; beyond that the '
          'solver raises); flow, downstream level, bed levels and, in one case, width symbolic')
ASSUMPTIONS = ['flow and widths positive; not converging raises an AssertionError, which is allowed']
REQUIRED = ['finite', 'discharge', 'critical', 'boundary', 'energy']
BUDGET = {'quick': 80, 'thorough': 600}
OPTS = {'prop_ms': 3000, 'deep_ms': 4000, 'feas_ms': 1000, 'name_div': True}
G = 9.81


def steady(X, n, its, symB, rough, flow=None, levels=None, sea=None, wid=(40, 25, 60)):
    r = X.mod('riv')
    Q = X.real('Q', 0.1, 2000) if flow is None else X.const(flow)
    z = [X.real('z%d' % i, -5, 5) if levels is None or levels[i] is None else X.const(levels[i]) for i in range(n)]
    B = [X.real('B%d' % i, 5, 200) if symB else X.const(wid[i]) for i in range(n)]
    WL = X.real('WL', -5, 8) if sea is None else X.const(sea)
    dx = [20.0, 35.0][:n - 1]
    tol, beta = 0.01, 1.0
    num = pars_base.num(Beta=beta, ErrTol=tol, MaxIt=its)
    Za, Ba = X.arr(list(z)), X.arr(list(B))
    DX = X.arr(dx)
    unchanged = X.keep(DX, Za, Ba)
    try:
        h, V = r.solveSteady(DX, Za, Ba, rough, Q, WL, num)
    except AssertionError:
        X.reach('not-converged')
        return
    X.check(h.size == n and V.size == n, 'size')
    for i in range(n):
        X.check(X.And(X.finite(h[i]), X.finite(V[i])), 'finite')
    # downstream end
    crit = X.pow(Q * Q / (B[-1] * B[-1] * G), X.frac('1/3'))
    X.close(h[n - 1], X.max(WL - z[-1], crit), 'boundary', 1e-6)
    for i in range(n):
        X.check(h[i] > 0, 'positive', use=True)
        X.close(V[i], Q / (B[i] * h[i]), 'discharge', 1e-5)
        X.check(h[i] >= X.pow(Q * Q / (B[i] * B[i] * G), X.frac('1/3')) - 1e-6, 'critical')
    for i in range(n - 1):
        crit = X.pow(Q * Q / (B[i] * B[i] * G), X.frac('1/3'))
        if X.is_true(h[i] > crit + 1e-6):
            # energy head at i, and at i+1 (written with Q / (B h) for V upstream, equal by the
            # 'discharge' check above)
            k = i + 1
            up = (z[i] + h[i] + beta * (Q * Q / (2 * G * B[i] * B[i])) * X.pow(h[i], -2)
                  - dx[i] * Q * Q * rough * rough / (2 * B[i] * B[i]) * X.pow(h[i], X.frac('-10/3')))
            dn = (z[k] + h[k] + beta * V[k] * V[k] / (2 * G)
                  + dx[i] * V[k] * V[k] * rough * rough / X.pow(h[k], X.frac('4/3')) / 2)
            res = up - dn
            X.check(X.And(res <= tol + 1e-6, res >= -tol - 1e-6), 'energy')
    unchanged('inputs')
    X.observe('h', h)
    X.observe('V', V)


def cases(tier):
    c = [('n2', steady, {'n': 2, 'its': 2, 'symB': False, 'rough': 0.03}),
         ('n2-smooth', steady, {'n': 2, 'its': 2, 'symB': False, 'rough': 0.0}),
         ('n1', steady, {'n': 1, 'its': 2, 'symB': True, 'rough': 0.03}),
         ('n2-width', steady, {'n': 2, 'its': 2, 'symB': True, 'rough': 0.03})]
    for q in (20, 300):
        c.append(('n3-%d' % q, steady, {'n': 3, 'its': 1, 'symB': False, 'rough': 0.03, 'flow': q, 'levels': [0.3, -0.2, -0.5]}))
    c.append(('n3-bed', steady, {'n': 3, 'its': 1, 'symB': False, 'rough': 0.03, 'flow': 60, 'levels': [None, 0, 0], 'sea': 1.0,
                                 'wid': (40, 40, 40)}))
    if tier != 'quick':
        c += [('n2-3', steady, {'n': 2, 'its': 3, 'symB': False, 'rough': 0.03}),
              ('n3', steady, {'n': 3, 'its': 2, 'symB': False, 'rough': 0.03})]
    return c
