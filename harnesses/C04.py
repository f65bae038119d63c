"""Runup and overtopping (coast.runup, coast.overtopping)."""
import pars_base
FUNCS = ['hapuamod/coast.py:runup', 'hapuamod/coast.py:overtopping']
BOUNDS = ('2 transects, one with and one without an outlet channel in the barrier (and 2 of each kind); every position, crest height, '
          'wave, sea level and coefficient symbolic; overtopping exponent in {1, 1.5, 2}')
ASSUMPTIONS = ['shoreline seaward of everything behind it; outlet banks either both present or both absent at a transect']
REQUIRED = ['none-below-crest', 'flux', 'partition', 'overwash-narrow', 'no-lagoon', 'zero-width', 'runup',
            'monotone', 'inputs']
BUDGET = {'quick': 60, 'thorough': 400}
OPTS = {}


def runup(X):
    c = X.mod('coast')
    T, H, S = X.real('T', 0, 30), X.real('H', 0, 20), X.real('S', 0, 1)
    r = c.runup(T, H, S)
    X.check(X.finite(r), 'runup-finite')
    X.close(r * r, 0.49 * 0.49 * S * T * T * H * H, 'runup', 1e-4)
    X.check(r >= 0, 'runup-nonneg')
    X.observe('r', r)


def transect(X, i, outlet):
    y0 = X.real('y0_%d' % i, -200, 200)
    y3 = X.real('y3_%d' % i, -400, 200)
    y4 = X.real('y4_%d' % i, -400, 200)
    X.assume(X.And(y0 > y3, y3 >= y4))
    if outlet:
        y1 = X.real('y1_%d' % i, -400, 200)
        y2 = X.real('y2_%d' % i, -400, 200)
        X.assume(X.And(y0 > y1, y1 >= y2, y2 >= y3))
    else:
        y1 = y2 = X.nan
    return [y0, y1, y2, y3, y4]


def over(X, kinds, exp):
    c = X.mod('coast')
    n = len(kinds)
    rows = [transect(X, i, k) for i, k in enumerate(kinds)]
    zr = [[X.real('z0_%d' % i, -5, 20), X.const(0), X.const(1), X.const(-1)] for i in range(n)]
    Y, Z = X.arr(rows), X.arr(zr)
    R, SL = X.real('R', 0, 20), X.real('SL', -5, 5)
    pp = pars_base.phys(**{'OT_coef': X.real('OT', 0, 1), 'OT_exp': exp, 'BarRatSlope': X.real('brs', -1, 5),
          'BarRatInt': X.real('bri', -10, 20)})
    cst, prop = c.overtopping(R, SL, Y, Z, pp)
    X.check(len(cst) == n and len(prop) == n, 'size')
    for i in range(n):
        y0, y1, y2, y3, y4 = rows[i]
        z = zr[i][0]
        over_ = R + SL - z
        X.check(X.Implies(over_ <= 0, cst[i] == 0), 'none-below-crest')
        X.check(X.Implies(X.And(over_ > 0.001, pp['OT_coef'] > 0.001), cst[i] > 0), 'some-above-crest')
        X.check(cst[i] >= 0, 'flux-nonneg')
        if X.is_true(over_ > 0):
            X.close(cst[i] * cst[i], pp['OT_coef'] * pp['OT_coef'] * X.pow(over_, int(2 * exp)), 'flux', 1e-4)
        else:
            X.close(cst[i], 0, 'flux')
        # all on top or all over the back
        p = prop[i]
        X.check(X.Or(p == 0, p == 1), 'partition')
        if kinds[i]:
            w = y0 - y1
            X.check(X.Implies(y1 <= y2, p == 1), 'zero-width')
            tall = z > w * pp['BarRatSlope'] + pp['BarRatInt']
            X.check(X.Implies(y1 > y2, X.Iff(tall, p == 1)), 'overwash-narrow')
        else:
            w = X.max(y0 - y3, 0.001)
            X.check(X.Implies(y3 <= y4, p == 0), 'no-lagoon')
            tall = z > w * pp['BarRatSlope'] + pp['BarRatInt']
            X.check(X.Implies(y3 > y4, X.Iff(tall, p == 1)), 'overwash-narrow')
    X.close_all(Y, X.arr(rows), 'inputs', nan_ok=True)
    X.close_all(Z, X.arr(zr), 'inputs')
    X.observe('cst', cst)
    X.observe('prop', prop)


def monotone(X):
    """More runup never gives less flux; every transect is treated on its own."""
    c = X.mod('coast')
    rows = [transect(X, 0, False), transect(X, 1, True)]
    Z = X.arr([[X.real('z0_%d' % i, -5, 20), X.const(0), X.const(1), X.const(-1)] for i in range(2)])
    Y = X.arr(rows)
    R, R2, SL = X.real('R', 0, 20), X.real('R2', 0, 20), X.real('SL', -5, 5)
    X.assume(R2 >= R)
    pp = pars_base.phys(OT_coef=X.real('OT', 0, 1), OT_exp=2, BarRatSlope=X.const(1), BarRatInt=X.const(1))
    a, pa = c.overtopping(R, SL, Y, Z, pp)
    b, pb = c.overtopping(R2, SL, Y, Z, pp)
    for i in range(2):
        X.check(b[i] >= a[i] - 1e-9, 'monotone')
        s, ps = c.overtopping(R, SL, Y[i:i + 1].copy(), Z[i:i + 1].copy(), pp)
        X.close(s[0], a[i], 'independent', 1e-6)
        X.check(X.Iff(ps[0] == 1, pa[i] == 1), 'independent')


def cases(tier):
    c = [('runup', runup, {}), ('monotone', monotone, {})]
    ks = ((False,), (True,), (False, True)) if tier == 'quick' else \
        ((False,), (True,), (False, True), (True, False), (True, True), (False, False))
    for k in ks:
        for e in (1, 1.5, 2):
            c.append(('over%s-%s' % (''.join('NO'[q] for q in k), e), over, {'kinds': k, 'exp': e}))
    return c
