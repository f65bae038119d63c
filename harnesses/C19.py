"""Boundary condition series between their samples (core.interpolate_at)."""
import types

# the rest of the package is not used by interpolate_at
OTHERS = {'hapuamod.' + m: types.ModuleType(m) for m in ('loadmod', 'riv', 'coast', 'mor', 'visualise', 'out')}
FUNCS = ['hapuamod/core.py:interpolate_at']
BOUNDS = ('series of 2 to 5 samples (thorough: 6) at any increasing times with any values, one column or several; 1 to 3 (thorough: 4) '
          'increasing times asked for, anywhere from the first sample to the last, on samples or between, in the same or different '
          'intervals, and after the last sample')
ASSUMPTIONS = ['sample times distinct and 1 s or more apart; times asked for on a sample or 1e-3 s or more from it and from each other']
REQUIRED = ['value', 'times', 'columns', 'inputs', 'after-end']
BUDGET = {'quick': 40, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 4000, 'feas_ms': 1000}


def spaced(X, name, n, t, lo=1, hi=10000):
    r = [t]
    for k in range(1, n):
        r.append(r[-1] + X.real('%s%d' % (name, k), lo, hi))
    return r


def expected(X, ts, vs, q):
    """(value, exact) at q by linear interpolation, the last value after the end."""
    if X.is_true(q >= ts[-1]):
        return vs[-1]
    for k in range(len(ts) - 1):
        if X.is_true(q < ts[k + 1]):
            return vs[k] + (vs[k + 1] - vs[k]) * (q - ts[k]) / (ts[k + 1] - ts[k])


def body(X, n, m, cols, on=(), late=False):
    """Queries; `on` lists those lying exactly on a sample."""
    core = X.mod('core', dict(OTHERS, **X.pd()))
    ts = spaced(X, 'gap', n, X.const(0))
    q = []
    for j in range(m):
        if j in on:
            k = X.choice('sample%d' % j, list(range(n)))
            v = ts[k]
        else:
            v = X.real('q%d' % j, 0, 10000 * n)
            for t in ts:
                X.assume(X.Or(v >= t + 1e-3, v <= t - 1e-3))
        if q:
            X.assume(v >= q[-1] + 1e-3)
        q.append(v)
    X.assume(q[0] <= ts[-1])
    if late:
        X.assume(q[-1] > ts[-1])
    else:
        X.assume(q[-1] <= ts[-1])
    names = ['a', 'b', 'c'][:cols]
    vals = {c: [X.real('%s%d' % (c, k), -100, 100) for k in range(n)] for c in names}
    series = cols == 1
    df = X.series(ts, vals['a']) if series else X.frame(ts, vals)
    import_pd = X.pd().get('pandas') if X.pd() else __import__('pandas')
    idx = import_pd.DatetimeIndex([X.ts(t) for t in q])
    r = core.interpolate_at(df, idx)
    X.check(len(r) == m, 'times')
    for j in range(m):
        X.close(X.sec(r.index[j]), q[j], 'times', 1e-5)
    for c in names:
        col = r.values if series else getattr(r, c).values
        old = df.values if series else getattr(df, c).values
        X.check(len(old) == n, 'inputs')
        for j in range(m):
            X.close(col[j], expected(X, ts, vals[c], q[j]), 'after-end' if late and j == m - 1 else 'value', 1e-5)
        for k in range(n):
            X.close(old[k], vals[c][k], 'inputs')
    if not series:
        X.check(list(r.columns) == names, 'columns')
        X.close(r.a[0], expected(X, ts, vals['a'], q[0]), 'columns', 1e-5)


def cases(tier):
    c = []
    for n in (2, 3, 4, 5) + ((6,) if tier == 'thorough' else ()):
        for m in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            if tier == 'quick' and n + m > 6:
                continue
            for on in ((), (0,), (m - 1,), tuple(range(m))):
                if len(set(on)) > n or m == 1 and on and on != (0,):
                    continue
                for cols in (1, 2):
                    c.append(('n%d-m%d-%s-%d' % (n, m, ''.join(map(str, on)), cols), body, {'n': n, 'm': m, 'cols': cols, 'on': on}))
            if m > 1:
                c.append(('n%d-m%d-late' % (n, m), body, {'n': n, 'm': m, 'cols': 1, 'late': True}))
    return list(dict((x[0], x) for x in c).values())
