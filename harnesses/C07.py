"""Unsteady river hydraulics (riv.solveFullPreissmann)."""
import types
import pandas as pd
import pars_base
FUNCS = ['hapuamod/riv.py:solveFullPreissmann']
BOUNDS = ('2 and 3 cross-sections, one and two hydraulic steps, up to 2 Newton iterations; depths, velocities, bed levels, '
          'widths, attached storage, seepage lengths, flow, sea level, time weight and permeability symbolic; the banded '
          'linear solve is replaced by its contract: any correction, and a zero correction only where the residual is zero')
ASSUMPTIONS = ['scipy.linalg.solve_banded solves the linear system it is given', 'depths and widths positive']
REQUIRED = ['balance', 'inflow', 'sealevel', 'closed', 'uniform', 'steady-row', 'rest-row', 'fallback', 'in-place',
            'singular', 'positive', 'momentum', 'split', 'inputs']
BUDGET = {'quick': 80, 'thorough': 600}
OPTS = {'prop_ms': 4000, 'deep_ms': 5000, 'name_div': True, 'feas_ms': 800}
G = 9.75        # exactly representable constants keep the float arithmetic on them exact


class LinAlgError(Exception):
    pass


def scipy_stub(solve):
    la = types.SimpleNamespace(solve_banded=solve, LinAlgError=LinAlgError)
    return types.SimpleNamespace(linalg=la)


def rows(X, n, sym_v=True):
    z = [X.real('z%d' % i, -3, 3) for i in range(n)]
    h = [X.real('h%d' % i, 0.2, 8) for i in range(n)]
    V = [X.real('V%d' % i, -4, 4) for i in range(n)]
    B = [X.real('B%d' % i, 5, 300) for i in range(n)]
    return z, h, V, B


def pars(X, P=None, theta=None, maxit=5):
    return (pars_base.num(**{'Theta': X.real('theta', 0.5, 1) if theta is None else theta, 'Beta': 1.0625, 'ErrTol': 0.001,
             'MaxIt': maxit, 'WarnTol': 0.1}),
            pars_base.phys(**{'Gravity': G, 'RoughnessManning': 0.03125, 'BarrierPermeability': X.real('P', 0, 0.01) if P is None else P}))


def storage(X, B, LA, dx):
    """Surface area per unit length at each section (attached storage spread over its half reaches)."""
    n = len(B)
    hl = [dx[0] / 2] + [(dx[i - 1] + dx[i]) / 2 for i in range(1, n - 1)] + [dx[-1] / 2]
    return [B[i] + LA[i] / hl[i] for i in range(n)]


def balance(X, n, closed, its):
    dx = [16.0, 32.0, 16.0][:n - 1]
    dt = 10.25
    z, h, V, B = rows(X, n)
    LA = [X.real('LA%d' % i, 0, 50000) for i in range(n)]
    LL = [X.real('LL%d' % i, 0, 500) for i in range(n)]
    num, phys = pars(X)
    phys['RoughnessManning'] = 0.0
    Q = X.real('Q', 0, 500)
    WL = X.real('WL', -3, 3)
    for i in range(n):
        # keep clear of the guard values for dry beds and still water
        X.assume(X.Or(V[i] > 0.01, V[i] < -0.01))
    deltas = []
    for k in range(its):
        deltas.append([X.real('d%d_%d' % (k, i), -3, 3) for i in range(2 * n)])
    n_call = [0]

    def solve(lu, ab, err):
        k = n_call[0]
        n_call[0] += 1
        if k < its:
            return X.arr(list(deltas[k]))
        # converged: what is left of the residual (continuity and boundary rows)
        for i in [0] + list(range(1, 2 * n - 1, 2)) + [2 * n - 1]:
            X.assume(X.And(err[i] <= 1e-4, err[i] >= -1e-4))
        return X.arr([X.const(0)] * (2 * n))

    r = X.mod('riv', {'scipy': scipy_stub(solve)})
    for k in range(its):
        # a correction above the tolerance, ending in a sensible state
        X.assume(deltas[k][0] > 0.01)
    hs, vs = list(h), list(V)
    for k in range(its):
        hs = [a - deltas[k][2 * i] for i, a in enumerate(hs)]
        vs = [a - deltas[k][2 * i + 1] for i, a in enumerate(vs)]
        for i in range(n):
            X.assume(hs[i] > 0.1)
            if closed and i == n - 1 and k == its - 1:
                X.assume(X.And(vs[i] > 1e-6, vs[i] < 2e-5))
            else:
                X.assume(X.Or(vs[i] > 0.01, vs[i] < -0.01))
    H, U = X.arr(list(h)), X.arr(list(V))
    given = [X.arr(list(a)) for a in (z, B, LA, LL, dx, [Q], [WL])]
    unchanged = X.keep(*given)
    out = r.solveFullPreissmann(*(given[:4] + [closed, H, U, given[4], pd.Timedelta(seconds=dt)] + given[5:] + [num, phys]))
    unchanged('inputs')
    for i in range(n):
        X.close(H[i], hs[i], 'in-place', 1e-6)
        X.close(U[i], vs[i], 'in-place', 1e-6)
    th = num['Theta']
    S = storage(X, B, LA, dx)
    # the end of a closed channel is not at sea level (the last sea level is not known: taken as that of this step)
    old_wl = WL if closed else z[-1] + h[-1]
    gain = X.const(0)
    seep = X.const(0)
    for i in range(n - 1):
        gain = gain + dx[i] / 2 * (S[i] * (H[i] - h[i]) + S[i + 1] * (H[i + 1] - h[i + 1]))
        # mean head across the barrier along the reach
        new = (z[i] + z[i + 1] + H[i] + H[i + 1]) / 2 - WL
        old = (z[i] + z[i + 1] + h[i] + h[i + 1]) / 2 - old_wl
        seep = seep + (LL[i] + LL[i + 1]) / 2 * phys['BarrierPermeability'] * (th * new + (1 - th) * old)
    q_in = th * (B[0] * H[0] * U[0]) + (1 - th) * (B[0] * h[0] * V[0])
    q_out = th * (B[-1] * H[-1] * U[-1]) + (1 - th) * (B[-1] * h[-1] * V[-1])
    X.check(X.abs(gain - dt * (q_in - q_out - seep)) <= 0.1, 'balance')
    X.close(B[0] * H[0] * U[0], Q, 'inflow', 1e-3)
    if closed:
        X.close(H[-1] * U[-1], 0, 'closed', 1e-3)
    else:
        X.close(z[-1] + H[-1], WL, 'sealevel', 1e-3)


def momentum(X, n, sign):
    """A converged step balances momentum: flux, pressure, gravity and friction change it."""
    dx = [16.0, 32.0, 16.0][:n - 1]
    dt = 10.25
    z, h, V, B = rows(X, n)
    num, phys = pars(X, P=X.const(0), theta=X.const(0.75))
    Q, WL = X.real('Q', 0, 500), X.real('WL', -3, 3)
    d = [X.real('d%d' % i, -3, 3) for i in range(2 * n)]
    seen = []

    def solve(lu, ab, err):
        seen.append(1)
        if len(seen) == 1:
            return X.arr(list(d))
        for i in range(2, 2 * n - 1, 2):
            X.assume(X.And(err[i] <= 1e-4, err[i] >= -1e-4))
        return X.arr([X.const(0)] * (2 * n))

    X.assume(d[0] > 0.01)
    hs, vs = [h[i] - d[2 * i] for i in range(n)], [V[i] - d[2 * i + 1] for i in range(n)]
    for i in range(n):
        X.assume(X.And(hs[i] > 0.1, vs[i] > 0.01 if sign[1] > 0 else vs[i] < -0.01, V[i] > 0.01 if sign[0] > 0 else V[i] < -0.01))
    r = X.mod('riv', {'scipy': scipy_stub(solve)})
    H, U = X.arr(list(h)), X.arr(list(V))
    r.solveFullPreissmann(X.arr(list(z)), X.arr(list(B)), X.arr([X.const(0)] * n), X.arr([X.const(0)] * n), False, H, U, X.arr(dx),
                          pd.Timedelta(seconds=dt), X.arr([Q]), X.arr([WL]), num, phys)

    def rate(i, hh, vv, s):
        """Rate of change of momentum between sections i and i+1 (per unit length and density)."""
        a = [B[k] * hh[k] for k in (i, i + 1)]
        v = [vv[k] for k in (i, i + 1)]
        q = [s * num['Beta'] * v[k] * v[k] * a[k] for k in (0, 1)]
        f = [s * v[k] * v[k] * 0.03125 ** 2 / X.pow(hh[i + k], X.frac('4/3')) for k in (0, 1)]
        s0 = (z[i] - z[i + 1]) / dx[i]
        return -(q[1] - q[0]) / dx[i] - G * (a[0] + a[1]) / 2 * (hh[i + 1] - hh[i]) / dx[i] + \
            G * (a[0] * (s0 - f[0]) + a[1] * (s0 - f[1])) / 2

    for i in range(n - 1):
        gain = sum(B[k] * (H[k] * U[k] - h[k] * V[k]) for k in (i, i + 1)) / 2
        due = dt * (0.75 * rate(i, hs, vs, sign[1]) + 0.25 * rate(i, h, V, sign[0]))
        X.check(X.abs(gain - due) <= 1e-2, 'momentum')


def split(X, n, closed):
    """Two steps in one call solve the same equations as two calls of one step each."""
    dx = [16.0, 32.0, 16.0][:n - 1]
    z, h, V, B = rows(X, n)
    num, phys = pars(X, theta=X.const(0.75))
    phys['RoughnessManning'] = 0.0
    LA = [X.real('LA%d' % i, 0, 50000) for i in range(n)]
    LL = [X.real('LL%d' % i, 0, 500) for i in range(n)]
    Q = [X.real('Q%d' % k, 0, 500) for k in range(2)]
    WL = [X.real('WL0', -3, 3)]
    WL.append(WL[0] if closed else X.real('WL1', -3, 3))
    d = [[X.real('d%d_%d' % (k, i), -0.0009, 0.0009) for i in range(2 * n)] for k in range(2)]
    for i in range(n):
        X.assume(X.Or(V[i] > 0.01, V[i] < -0.01))
    if not closed:
        X.assume(z[-1] + h[-1] - d[0][2 * n - 2] == WL[0])       # the first step ends at its sea level
    out = []
    for calls in ([[0, 1]], [[0], [1]]):
        errs = []

        def solve(lu, ab, err):
            errs.append(list(err))
            return X.arr(list(d[len(errs) - 1]))

        r = X.mod('riv', {'scipy': scipy_stub(solve)})
        H, U = X.arr(list(h)), X.arr(list(V))
        for ks in calls:
            r.solveFullPreissmann(X.arr(list(z)), X.arr(list(B)), X.arr(list(LA)), X.arr(list(LL)), closed, H, U, X.arr(dx),
                                  pd.Timedelta(seconds=10.25), X.arr([Q[k] for k in ks]), X.arr([WL[k] for k in ks]), num, phys)
        out.append((errs, H, U))
    (ea, ha, ua), (eb, hb, ub) = out
    X.check(len(ea) == 2 and len(eb) == 2, 'split')
    for k in range(2):
        for i in range(2 * n):
            X.close(ea[k][i], eb[k][i], 'split', 1e-6)
    X.close_all(ha, hb, 'split')
    X.close_all(ua, ub, 'split')


def residual_rows(X, n, kind):
    """States that must have no residual (the solver is asked for no correction)."""
    dx = [16.0, 32.0, 16.0][:n - 1]
    n_man = 0.03125
    num, phys = pars(X, P=X.const(0), theta=X.const(0.75) if kind == 'steady' else None)
    h = [X.real('h%d' % i, 0.2, 8) for i in range(n)]
    B = [X.real('B%d' % i, 5, 300) for i in range(n)]
    zn = X.real('zn', -3, 3)

    def sf(hh, v):
        return v * v * n_man * n_man / X.pow(hh, X.frac('4/3'))

    v = [X.real('v%d' % i, 0.05, 4) for i in range(n)]
    Q = v[0] * h[0] * B[0]
    if kind == 'uniform':
        h, B, v = [h[0]] * n, [B[0]] * n, [v[0]] * n
    elif kind == 'steady':
        B = [Q / (v[i] * h[i]) for i in range(n)]
    else:       # rest: the water surface level, all still
        Q = X.const(0)
        v = [X.const(0)] * n
        phys['RoughnessManning'] = 0.0
        for i in range(n):
            X.assume(B[i] * h[i] <= 8 * B[i])
            X.assume(B[i] * h[i] >= 0)
    z = [None] * n
    z[-1] = zn
    for i in range(n - 2, -1, -1):
        if kind == 'rest':
            z[i] = z[i + 1] + h[i + 1] - h[i]
            continue
        a, b = B[i] * h[i], B[i + 1] * h[i + 1]
        m = num['Beta'] * (v[i + 1] * v[i + 1] * b - v[i] * v[i] * a) + G / 2 * (a + b) * (h[i + 1] - h[i]) \
            + G * dx[i] / 2 * (a * sf(h[i], v[i]) + b * sf(h[i + 1], v[i + 1]))
        z[i] = z[i + 1] + m / (G * (a + b) / 2)
    seen = []

    def solve(lu, ab, err):
        for i in range(2 * n):
            if kind != 'rest':
                X.close(err[i], 0, '%s-row' % kind, 1e-3)
            elif i % 2 == 0 and 0 < i < 2 * n - 1:
                X.check(X.abs(err[i]) <= 1e-3 * (B[i // 2 - 1] + B[i // 2]), 'rest-row')
        seen.append(1)
        return X.arr([X.const(0)] * (2 * n))

    r = X.mod('riv', {'scipy': scipy_stub(solve)})
    H, U = X.arr(list(h)), X.arr(list(v))
    WL = z[-1] + h[-1]
    r.solveFullPreissmann(X.arr(z), X.arr(list(B)), X.arr([X.const(0)] * n), X.arr([X.const(0)] * n), False, H, U, X.arr(dx),
                          pd.Timedelta(seconds=10.25), X.arr([Q, Q]), X.arr([WL, WL]), num, phys)
    X.check(len(seen) == 2, 'steps')
    if kind != 'rest':
        for i in range(n):
            X.close(H[i], h[i], 'uniform', 1e-6)
            X.close(U[i], v[i], 'uniform', 1e-6)


def fallback(X, n, steps, bad):
    """No convergence: the step's result is the steady profile for its own flow and sea level."""
    dx = [16.0] * (n - 1)
    z, h, V, B = rows(X, n)
    num, phys = pars(X, P=X.const(0), theta=X.const(0.75), maxit=1)
    Q = [X.real('Q%d' % k, 1, 500) for k in range(steps)]
    WL = [X.real('WL%d' % k, -3, 3) for k in range(steps)]
    st_h = [X.real('sh%d' % i, 0.2, 8) for i in range(n)]
    st_v = [X.real('sv%d' % i, 0.05, 4) for i in range(n)]
    errs, calls = [], []
    fails = [bad == 'first', bad == 'last'] if steps == 2 else [True]

    def solve(lu, ab, err):
        k = len(errs)
        errs.append(err[0])
        return X.arr([X.const(1 if fails[k] else 0)] * (2 * n))

    r = X.mod('riv', {'scipy': scipy_stub(solve)})
    keep = r.solveSteady

    def steady(*a, **kw):
        names = ('ChanDx', 'ChanElev', 'ChanWidth', 'Roughness', 'Qin', 'DsWL', 'NumericalPars')
        d = dict(zip(names, a))
        d.update(kw)
        calls.append(d)
        return X.arr(list(st_h)), X.arr(list(st_v))

    r.solveSteady = steady
    try:
        H, U = X.arr(list(h)), X.arr(list(V))
        r.solveFullPreissmann(X.arr(list(z)), X.arr(list(B)), X.arr([X.const(0)] * n), X.arr([X.const(0)] * n), False, H, U,
                              X.arr(dx), pd.Timedelta(seconds=10.25), X.arr(Q), X.arr(WL), num, phys)
    finally:
        r.solveSteady = keep
    k = 0 if fails[0] else 1
    X.check(len(calls) == 1, 'fallback')
    c = calls[0]
    X.close(c['Qin'], Q[k], 'fallback', 1e-6)
    X.close(c['DsWL'], WL[k], 'fallback', 1e-6)
    X.close_all(c['ChanElev'], X.arr(list(z)), 'fallback')
    X.close_all(c['ChanWidth'], X.arr(list(B)), 'fallback')
    X.close(c['Roughness'], 0.03125, 'fallback')
    for i in range(n):
        X.close(H[i], st_h[i], 'fallback', 1e-6)
        X.close(U[i], st_v[i], 'fallback', 1e-6)
    if steps == 2 and fails[0]:
        # the next step starts from the fallback state
        X.close(errs[1], st_v[0] * st_h[0] * B[0] - Q[1], 'fallback', 1e-3)


def singular(X, n):
    """A singular matrix: solved again after a perturbation."""
    dx = [16.0] * (n - 1)
    z, h, V, B = rows(X, n)
    num, phys = pars(X, P=X.const(0), theta=X.const(0.75))
    d = [X.real('d%d' % i, -0.0009, 0.0009) for i in range(2 * n)]
    for i in range(n):
        X.assume(X.Or(V[i] > 0.01, V[i] < -0.01))
    calls = []

    def solve(lu, ab, err):
        calls.append(1)
        if len(calls) == 1:
            raise LinAlgError('singular')
        return X.arr(list(d))

    r = X.mod('riv', {'scipy': scipy_stub(solve)})
    H, U = X.arr(list(h)), X.arr(list(V))
    r.solveFullPreissmann(X.arr(list(z)), X.arr(list(B)), X.arr([X.const(0)] * n), X.arr([X.const(0)] * n), False, H, U, X.arr(dx),
                          pd.Timedelta(seconds=10.25), X.arr([X.const(5)]), X.arr([X.const(0)]), num, phys)
    X.check(len(calls) >= 2, 'singular')
    for i in range(n):
        X.close(H[i], h[i] - d[2 * i], 'singular', 1e-6)
        X.close(U[i], V[i] - d[2 * i + 1], 'singular', 1e-6)


def positive(X, n):
    """Whatever the correction, depths stay positive."""
    dx = [16.0] * (n - 1)
    z, h, V, B = rows(X, n)
    num, phys = pars(X, P=X.const(0), theta=X.const(0.75))
    d = [X.real('d%d' % i, -20, 20) for i in range(2 * n)]
    calls = []

    def solve(lu, ab, err):
        calls.append(1)
        for e in err:
            X.check(X.finite(e), 'positive')
        return X.arr(list(d)) if len(calls) == 1 else X.arr([X.const(0)] * (2 * n))

    r = X.mod('riv', {'scipy': scipy_stub(solve)})
    H, U = X.arr(list(h)), X.arr(list(V))
    r.solveFullPreissmann(X.arr(list(z)), X.arr(list(B)), X.arr([X.const(0)] * n), X.arr([X.const(0)] * n), False, H, U, X.arr(dx),
                          pd.Timedelta(seconds=10.25), X.arr([X.const(5)]), X.arr([X.const(0)]), num, phys)
    for i in range(n):
        X.check(H[i] > 0, 'positive')


def cases(tier):
    c = []
    for n in (2, 3):
        for closed in (False, True):
            c.append(('balance-%d-%s' % (n, 'closed' if closed else 'open'), balance, {'n': n, 'closed': closed, 'its': 1}))
            c.append(('split-%d-%s' % (n, 'closed' if closed else 'open'), split, {'n': n, 'closed': closed}))
        c += [('uniform-%d' % n, residual_rows, {'n': n, 'kind': 'uniform'}),
              ('steady-%d' % n, residual_rows, {'n': n, 'kind': 'steady'}),
              ('rest-%d' % n, residual_rows, {'n': n, 'kind': 'rest'})]
    c += [('fallback', fallback, {'n': 2, 'steps': 1, 'bad': 'last'}),
          ('fallback-first', fallback, {'n': 2, 'steps': 2, 'bad': 'first'}),
          ('fallback-last', fallback, {'n': 2, 'steps': 2, 'bad': 'last'}),
          ('singular', singular, {'n': 2}), ('positive', positive, {'n': 2})]
    c += [('momentum-2-out', momentum, {'n': 2, 'sign': (1, 1)}), ('momentum-2-turn', momentum, {'n': 2, 'sign': (1, -1)})]
    if tier != 'quick':
        c += [('momentum-2-in', momentum, {'n': 2, 'sign': (-1, -1)}), ('momentum-3-out', momentum, {'n': 3, 'sign': (1, 1)})]
        c += [('balance-4-open', balance, {'n': 4, 'closed': False, 'its': 1}),
              ('balance-2-two', balance, {'n': 2, 'closed': False, 'its': 2}),
              ('positive-3', positive, {'n': 3}), ('singular-3', singular, {'n': 3})]
    return c
