"""Bedload transport (riv.calcBedload)."""
import pars_base
FUNCS = ['hapuamod/riv.py:calcBedload']
BOUNDS = ('2 and 3 cross-sections; every width, depth, velocity, grain size, density, threshold, coefficient and upwinding '
          'weight symbolic; transport exponent in {1, 1.5, 2}')
ASSUMPTIONS = ['depths and widths positive, sediment denser than water, void ratio < 1']
REQUIRED = ['threshold', 'direction', 'weights', 'magnitude', 'reverse']
BUDGET = {'quick': 70, 'thorough': 400}
OPTS = {'prop_ms': 3000}


def pars(X, exp, sym):
    if sym:
        return pars_base.phys(**{'RhoRiv': X.const(1000), 'RhoSed': X.real('RhoS', 1200, 4000), 'Gravity': X.const(9.81),
                'GrainSize': X.const(0.03), 'GrainRoughness': X.real('nG', 0.001, 0.1),
                'MPM_coef': X.real('coef', 0, 20), 'MPM_exp': exp, 'CritShieldsStress': X.real('crit', 0, 0.2),
                'VoidRatio': X.real('void', 0, 0.9)})
    return pars_base.phys(**{'RhoRiv': X.const(1000), 'RhoSed': X.const(2650), 'Gravity': X.const(9.81),
            'GrainSize': X.const(0.03), 'GrainRoughness': X.const(0.03), 'MPM_coef': X.const(8),
            'MPM_exp': exp, 'CritShieldsStress': X.const(0.047), 'VoidRatio': X.const(0.4)})


def section(X, n):
    B = [X.real('B%d' % i, 1, 500) for i in range(n)]
    h = [X.real('h%d' % i, 0.01, 10) for i in range(n)]
    V = [X.real('V%d' % i, -6, 6) for i in range(n)]
    z = [X.real('zb%d' % i, -10, 10) for i in range(n)]
    return z, B, h, V


def call(X, z, B, h, V, pp, psi):
    r = X.mod('riv')
    a = [X.arr(list(q)) for q in (z, B, h, V)]
    q = r.calcBedload(a[0], a[1], a[2], a[3], X.arr([20.0] * (len(z) - 1)), pp, psi)
    for p, o in zip(a, (z, B, h, V)):
        X.close_all(p, X.arr(list(o)), 'inputs')
    return q


def shields(X, h, V, pp):
    """Dimensionless shear stress: rho g h S / ((rhos-rho) g D), S = V^2 n^2 / h^(4/3)."""
    n, D = pp['GrainRoughness'], pp['GrainSize']
    return pp['RhoRiv'] * V * V * n * n / (X.pow(h, X.frac('1/3')) * (pp['RhoSed'] - pp['RhoRiv']) * D)


def node(X, exp, sym):
    """Uniform conditions: a reach carries the node transport (any weight)."""
    pp = pars(X, exp, sym)
    z, B, h, V = section(X, 1)
    psi = X.real('psi', 0, 1)
    q = call(X, z * 2, B * 2, h * 2, V * 2, pp, psi)
    X.check(q.size == 1, 'size')
    th = shields(X, h[0], V[0], pp)
    crit = pp['CritShieldsStress']
    X.check(X.finite(q[0]), 'finite')
    X.check(X.Implies(th <= crit - 1e-9, q[0] == 0), 'threshold')
    strong = X.And(th > crit + 0.01, pp['MPM_coef'] > 0.1)
    X.check(X.Implies(X.And(strong, V[0] > 0), q[0] > 0), 'direction')
    X.check(X.Implies(X.And(strong, V[0] < 0), q[0] < 0), 'direction')
    X.observe('q', q)


def magnitude(X, exp):
    """Meyer-Peter-Mueller magnitude (squared, to stay polynomial), bulk volume."""
    pp = pars(X, exp, False)
    pp['MPM_coef'] = X.real('coef', 0, 20)
    pp['CritShieldsStress'] = X.real('crit', 0, 0.2)
    z, B, h, V = section(X, 1)
    q = call(X, z * 2, B * 2, h * 2, V * 2, pp, X.const(0.5))
    th = shields(X, h[0], V[0], pp)
    ex = X.max(th - pp['CritShieldsStress'], 0)
    unit = X.sqrt(X.const((2650.0 / 1000 - 1) * 9.81 * 0.03 ** 3)) / X.const(0.6)
    want = pp['MPM_coef'] * X.pow(ex, X.frac(exp)) * B[0] * unit
    X.close(X.abs(q[0]), want, 'magnitude', 1e-6)


def weights(X, exp):
    """A reach carries the weighted mean of what its two ends would carry."""
    pp = pars(X, exp, False)
    z, B, h, V = section(X, 3)
    psi = X.real('psi', 0, 1)
    q = call(X, z, B, h, V, pp, psi)
    X.check(q.size == 2, 'size')
    ends = []
    for i in range(3):
        e = call(X, [z[i]] * 2, [B[i]] * 2, [h[i]] * 2, [V[i]] * 2, pp, X.const(0))
        ends.append(e[0])
    for i in range(2):
        X.close(q[i], (1 - psi) * ends[i] + psi * ends[i + 1], 'weights', 1e-6)
        X.check(X.And(q[i] <= X.max(ends[i], ends[i + 1]) + 1e-9,
                      q[i] >= X.min(ends[i], ends[i + 1]) - 1e-9), 'between')


def reverse(X, exp):
    pp = pars(X, exp, False)
    z, B, h, V = section(X, 2)
    psi = X.real('psi', 0, 1)
    q = call(X, z, B, h, V, pp, psi)
    r = call(X, z, B, h, [-v for v in V], pp, psi)
    X.close(q[0], -r[0], 'reverse', 1e-6)


def cases(tier):
    c = []
    for e in (1, 1.5, 2):
        c += [('node-%s' % e, node, {'exp': e, 'sym': True}), ('nodec-%s' % e, node, {'exp': e, 'sym': False}),
              ('weights-%s' % e, weights, {'exp': e}), ('reverse-%s' % e, reverse, {'exp': e}),
              ('magnitude-%s' % e, magnitude, {'exp': e})]
    return c
