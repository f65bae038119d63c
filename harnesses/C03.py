"""Longshore transport (coast.longShoreTransport)."""
import math
import pars_base
FUNCS = ['hapuamod/coast.py:longShoreTransport']
BOUNDS = ('3 transects (two shore segments, each with its own symbolic orientation); every shoreline position, '
          'wave power >= 0, wave period, wavelength, depth and direction in [-pi, pi) is symbolic')
ASSUMPTIONS = ['Dx > 0, wave period, wavelength and wave data depth positive, coefficients positive']
REQUIRED = ['finite', 'offshore-zero', 'sign-right', 'sign-left', 'bound', 'mirror', 'local', 'refraction', 'inputs']
BUDGET = {'quick': 70, 'thorough': 600}
OPTS = {'prop_ms': 4000, 'deep_ms': 5000}


def pars(X, sym):
    return pars_base.phys(**{'BreakerCoef': X.real('BreakerCoef', 1e-5, 0.01) if sym else X.const(0.0004),
            'K2coef': X.real('K2', 1e-6, 0.01) if sym else X.const(0.0001),
            'Gravity': X.const(9.81), 'WaveDataDepth': X.real('depth', 1, 50) if sym else None})


def setup(X, sym, n=3):
    c = X.mod('coast')
    Dx = X.real('Dx', 1, 100) if sym else X.const(20)
    Y = X.arr([[X.real('y%d' % i, -500, 500), X.nan, X.nan, X.const(-50), X.const(-80)] for i in range(n)])
    P = X.real('P', 0, 100000)
    T = X.real('T', 1, 25)
    pp = pars(X, sym)
    if sym:
        L = X.real('L', 1, 500)
    else:
        L, pp['WaveDataDepth'] = X.choice('L', [(X.const(60), X.const(10)), (X.const(12), X.const(3))])
    E = X.angle('E', open_hi=True)
    return c, Y, Dx, P, T, L, E, pp


def local_sc(X, Y, Dx, E, i):
    """sin and cos of the wave direction relative to the normal of segment i."""
    m = (Y[i, 0] - Y[i + 1, 0]) / Dx
    a = E - X.arctan(m)
    return X.sin(a), X.cos(a)


def basic(X, sym):
    c, Y, Dx, P, T, L, E, pp = setup(X, sym, 2)
    unchanged = X.keep(Y)
    r = c.longShoreTransport(Y, Dx, P, T, L, E, pp)
    unchanged('inputs')
    X.check(r.size == 1, 'size')
    X.check(X.finite(r[0]), 'finite')
    s, co = local_sc(X, Y, Dx, E, 0)
    X.check(X.Implies(co < -1e-6, r[0] == 0), 'offshore-zero', use=True)
    X.check(X.Implies(X.And(co > 1e-6, s > 1e-6, P > 0.001), r[0] < 0), 'sign-left', use=True)
    X.check(X.Implies(X.And(co > 1e-6, s < -1e-6, P > 0.001), r[0] > 0), 'sign-right', use=True)
    if not sym:
        X.check(X.And(r[0] <= pp['K2coef'] * P + 1e-9, -r[0] <= pp['K2coef'] * P + 1e-9), 'bound')
    X.observe('lst', r)


def mirror(X):
    c, Y, Dx, P, T, L, E, pp = setup(X, False, 2)
    r = c.longShoreTransport(Y, Dx, P, T, L, E, pp)
    r2 = c.longShoreTransport(Y[::-1].copy(), Dx, P, T, L, -E, pp)
    X.close(r[0], -r2[0], 'mirror', 1e-6)


def local(X):
    """Each segment's rate is that segment's own, whatever the other does."""
    c, Y, Dx, P, T, L, E, pp = setup(X, False, 3)
    r = c.longShoreTransport(Y, Dx, P, T, L, E, pp)
    a = c.longShoreTransport(Y[:2].copy(), Dx, P, T, L, E, pp)
    b = c.longShoreTransport(Y[1:].copy(), Dx, P, T, L, E, pp)
    X.check(r.size == 2, 'size2')
    X.close(r[0], a[0], 'local', 1e-6)
    X.close(r[1], b[0], 'local', 1e-6)


def refraction(X, up):
    """Waves turn from their angle at the depth of the wave data to their angle at breaking with the celerity (Snell)."""
    c = X.mod('coast')
    g = 9.81
    P, T, d, L = X.choice('waves', [(500., 5., 10., 36.6), (20000., 9., 10., 82.), (90000., 14., 10., 137.), (90000., 5., 3., 20.),
                                    (30000., 12., 12., 125.)])
    coef = 0.0004
    Dx = X.const(20)
    y = X.real('y', -500, 500)
    Y = X.arr([[y + up * i, X.nan, X.nan, X.const(-50), X.const(-80)] for i in range(2)])
    E = X.angle('E', open_hi=True)
    pp = pars_base.phys(BreakerCoef=X.const(coef), K2coef=X.const(0.0001), Gravity=X.const(g), WaveDataDepth=X.const(d))
    r = c.longShoreTransport(Y, Dx, X.const(P), X.const(T), X.const(L), E, pp)
    cb = math.sqrt(g * (coef * P) ** 0.4)
    ch = g * T / (2 * math.pi) * math.tanh(2 * math.pi * d / L)
    s, co = (X.sin(E), X.cos(E)) if up == 0 else local_sc(X, Y, Dx, E, 0)
    full = 0.0001 * P * min(cb / ch, 1.0)
    X.check(X.And(co * s <= 0.5, co * s >= -0.5), 'half', use=True)
    X.check(X.Implies(co > 1e-6, X.abs(r[0] + full * (co * s)) <= 1e-6 * full), 'refraction')


def cases(tier):
    return [('refraction', refraction, {'up': 0}), ('refraction-sloping', refraction, {'up': 15}),
            ('basic', basic, {'sym': False}), ('general', basic, {'sym': True}), ('mirror', mirror, {}), ('local', local, {})]
