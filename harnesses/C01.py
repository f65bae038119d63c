"""Model <-> real world coordinates (geom.mod2real, geom.real2mod)."""
FUNCS = ['hapuamod/geom.py:mod2real', 'hapuamod/geom.py:real2mod']
BOUNDS = 'points within 10 km of the origin, origin within 1000 km, every shore-normal direction; scalars and arrays of 2 points'
ASSUMPTIONS = []
REQUIRED = ['mod-real-mod-x', 'real-mod-real-x', 'isometry', 'yaxis', 'array']
BUDGET = {'quick': 60, 'thorough': 300}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000}


def common(X):
    g = X.mod('geom')
    S = X.angle('S', -X.pi(), 2 * X.pi())
    O = X.arr([X.real('ox', -1e6, 1e6), X.real('oy', -1e6, 1e6)])
    return g, S, O


def round1(X):
    g, S, O = common(X)
    x, y = X.real('x', -1e4, 1e4), X.real('y', -1e4, 1e4)
    xr, yr = g.mod2real(x, y, O, S)
    s, c = X.sin(S), X.cos(S)
    # +y points offshore along the bearing S, +x to the right of it
    X.close(xr, O[0] + x * c + y * s, 'yaxis', 1e-5)
    X.close(yr, O[1] - x * s + y * c, 'yaxis', 1e-5)
    x2, y2 = g.real2mod(xr, yr, O, S)
    X.close(x2, x, 'mod-real-mod-x', 1e-5)
    X.close(y2, y, 'mod-real-mod-y', 1e-5)
    X.observe('real', [xr - O[0], yr - O[1]])


def round2(X):
    g, S, O = common(X)
    x, y = X.real('x', -1e6, 1e6), X.real('y', -1e6, 1e6)
    X.assume(X.And(X.abs(x - O[0]) < 1e4, X.abs(y - O[1]) < 1e4))
    xm, ym = g.real2mod(x, y, O, S)
    X.observe('mod', [xm, ym])
    x2, y2 = g.mod2real(xm, ym, O, S)
    X.close(x2, x, 'real-mod-real-x', 1e-5)
    X.close(y2, y, 'real-mod-real-y', 1e-5)


def isometry(X):
    g, S, O = common(X)
    P = [X.real(n, -1e4, 1e4) for n in ('x1', 'y1', 'x2', 'y2')]
    a = g.mod2real(P[0], P[1], O, S)
    b = g.mod2real(P[2], P[3], O, S)
    dr = (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
    dm = (P[0] - P[2]) * (P[0] - P[2]) + (P[1] - P[3]) * (P[1] - P[3])
    X.close(dr, dm, 'isometry', 1e-3)


def arrays(X):
    g, S, O = common(X)
    P = [X.real(n, -1e4, 1e4) for n in ('x1', 'y1', 'x2', 'y2')]
    xs, ys = X.arr([P[0], P[2]]), X.arr([P[1], P[3]])
    r = g.mod2real(xs, ys, O, S)
    for i in range(2):
        q = g.mod2real(P[2 * i], P[2 * i + 1], O, S)
        X.close(r[0][i], q[0], 'array', 1e-5)
        X.close(r[1][i], q[1], 'array', 1e-5)
    m = g.real2mod(r[0], r[1], O, S)
    X.close_all(m[0], xs, 'array-x', 1e-5)
    X.close_all(m[1], ys, 'array-y', 1e-5)


def cases(tier):
    return [('round1', round1, {}), ('round2', round2, {}), ('isometry', isometry, {}), ('arrays', arrays, {})]
