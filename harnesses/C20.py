"""The simple straight shoreline start (loadmod.loadModel without spatial inputs)."""
from load_base import Loader
FUNCS = ['hapuamod/loadmod.py:loadModel', 'hapuamod/riv.py:assembleChannel']
BOUNDS = ('transect spacings 16, 12.3, 33.3, 0.1, 15.2 and 20.1 m; shoreline lengths either side of the river any value up to 2.5 (thorough: 4) '
          'spacings, upstream length any value of 1 to 3 spacings, widths, levels and slopes any value in realistic ranges')
ASSUMPTIONS = ['the configuration has been read and validated (third-party configobj/validate)',
               'target and spit width of the barrier differ',
               'transect positions are computed with the rounding of double precision; other values exactly']
REQUIRED = ['spacing', 'river', 'extent', 'order', 'channel', 'beach', 'levels', 'bed', 'outlet', 'water', 'closed', 'coefficients',
            'barrier-line', 'outputs', 'whole-channel', 'times']
BUDGET = {'quick': 40, 'thorough': 200}
OPTS = {'prop_ms': 5000, 'deep_ms': 5000, 'feas_ms': 1000, 'name_div': True}
TOL = 1e-6


def body(X, dx, k, out):
    R, C = X.real, X.const
    L = Loader(X, dx)
    left, right = R('left', dx / 64, k * dx), R('right', dx / 64, k * dx)
    X.assume(X.Or(left <= right, left > right))
    up = R('upstream', 1.0625 * dx, 3 * dx)
    beach, spit, wid, riv = R('beach', 0, 500), R('spit', 0, 100), R('width', 0.25, 100), R('rivwidth', 1, 500)
    bed, lag, crest, slope = R('outletbed', -5, 5), R('lagoonbed', -5, 5), R('crest', -5, 10), R('slope', 0, 0.0625)
    minw = R('minw', 0, 0.125)
    L.cfg['SpatialInputs'].update(ShorelineLengthLeft=left, ShorelineLengthRight=right, BeachWidth=beach)
    L.cfg['InitialConditions'].update(OutletWidth=wid, OutletBed=bed, LagoonBed=lag, BarrierElev=crest)
    P = L.cfg['PhysicalParameters']
    p = dict(UpstreamLength=up, SpitWidth=spit, RiverWidth=riv, RiverSlope=slope, MinOutletWidth=minw)
    if out:
        p.update(Kcoef=R('K', 0, 1), BeachTopElev=R('top', 0, 5), TargetBarHeight=R('tbh', 0, 10), TargetBarWidth=R('tbw', 0, 200))
        L.cfg['OutputOptions'].update(OutFile='o.nc', TsOutFile='ts.nc', OutInt=R('outint', 0, 1e5), TsOutInt=R('tsoutint', 0, 1e5))
    P.update(p)
    X.assume(X.abs(P['TargetBarWidth'] - spit) >= 0.125)
    h, d0, d1 = R('hyddt', 0.25, 100), R('dtmin', 1, 1000), R('dtmax', 1, 1000)
    L.cfg['Time'].update(HydDt=h, MorDtMin=d0, MorDtMax=d1)
    r = L.load()
    x = list(r.ShoreX)
    n = len(x)
    c = lambda a, b, label, tol=TOL: X.close(a, b, label, tol, nan_ok=True)
    for a, b in zip(x, x[1:]):
        c(b - a, dx, 'spacing')
    zero = [i for i in range(n) if X.is_true(x[i] == 0)]
    X.check(len(zero) == 1, 'river')
    if len(zero) != 1:
        return
    z = zero[0]
    X.check(0 < z < n - 1, 'extent')
    X.check(x[0] <= -left + TOL, 'extent')
    X.check(x[-1] >= right - TOL, 'extent')
    X.check(x[0] >= -left - dx - TOL, 'extent')
    X.check(x[-1] <= right + dx + TOL, 'extent')
    Y, Z = r.ShoreY, r.ShoreZ
    for i in range(n):
        y = [Y[i, j] for j in range(5)]
        c(y[0], 0, 'beach')
        if i == z:
            c(y[0] - y[1], spit, 'channel')
            c(y[1] - y[2], wid, 'channel')
            X.check(y[2] > y[3], 'order')
            c(y[2], y[3], 'channel', 0.01)
            X.check(y[3] > y[4] + minw, 'order')
            c(y[2] - y[4], riv, 'channel')
            X.check(X.And(Z[i, 1] >= X.min(bed, lag) - TOL, Z[i, 1] <= X.max(bed, lag) + TOL), 'levels')
            c(Z[i, 2], crest, 'levels')
        else:
            X.check(X.isnan(y[1]) and X.isnan(y[2]), 'channel')
            c(y[3], -beach, 'beach')
            c(y[4], -beach, 'beach')
            X.check(X.isnan(Z[i, 1]) and X.isnan(Z[i, 2]), 'levels')
        c(Z[i, 0], crest, 'levels')
        c(Z[i, 3], lag, 'levels')
    # river bed: highest upstream, at the given slope, meeting the lagoon bed
    e = list(r.RiverElev)
    m = len(e)
    X.check(X.And((m - 1) * dx <= up + TOL, m * dx >= up - TOL), 'bed')
    for i in range(m):
        c(e[i], lag + slope * dx * (m - 1 - i), 'bed')
    for i in range(2):
        c(r.OutletEndX[i], 0, 'outlet')
    c(r.OutletEndWidth, wid, 'outlet')
    c(r.OutletEndElev, bed, 'outlet')
    X.check(not r.Closed, 'closed')
    for a, k_ in ((r.RiverWL, m), (r.RiverVel, m), (r.LagoonWL, n), (r.LagoonVel, n), (r.OutletDep, n), (r.OutletVel, n),
                  (r.OutletEndDep, 2), (r.OutletEndVel, 2)):
        X.check(len(a) == k_, 'water')
        for v in a:
            c(v, 0, 'water')
    q = r.PhysicalPars
    g = C(9.75)
    c(q['K2coef'] * ((C(2650) - 1025) * g * (1 - C(0.375))), P['Kcoef'], 'coefficients')
    c(q['BreakerCoef'] * 1025 * X.pow(g, C(1.5)) * C(0.25), 8, 'coefficients', 1e-4)
    for w, hgt in (('SpitWidth', 'BeachTopElev'), ('TargetBarWidth', 'TargetBarHeight')):
        c(q['BarRatInt'] + q['BarRatSlope'] * P[w], P[hgt], 'barrier-line', 1e-4)
    t = r.TimePars
    for name, want in (('HydDt', h), ('MorDtMin', d0), ('MorDtMax', d1)):
        c(X.sec(t[name]), want, 'times')
    c(X.sec(t['StartTime']), 30600, 'times')
    c(X.sec(t['EndTime']), 34200, 'times')
    o = r.OutputOpts
    X.check(o['OutFile'] == ('o.nc' if out else 'case_outputs.nc') and o['TsOutFile'] == ('ts.nc' if out else 'case_TSoutputs.nc'), 'outputs')
    for name in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt'):
        c(X.sec(o[name]), L.cfg['OutputOptions'][name], 'outputs')
    # a single channel from river to sea
    a = X.mod('riv').assembleChannel(r.ShoreX, r.ShoreY, r.ShoreZ, r.OutletEndX, r.OutletEndWidth, r.OutletEndElev, r.Closed,
                                     r.RiverElev, r.RiverWL - r.RiverElev, r.RiverVel, r.LagoonWL, r.LagoonVel, r.OutletDep,
                                     r.OutletVel, r.OutletEndDep, r.OutletEndVel, r.NumericalPars['Dx'], r.PhysicalPars)
    X.check(not a[-1] and [int(f) for f in a[9]] == [0] * m + [1, 2, 3, 4], 'whole-channel')
    for v in a[2]:
        X.check(v > 0, 'whole-channel')


def cases(tier):
    deep = tier == 'thorough'
    ks = 4 if deep else 2.5
    c = [('dx%g' % dx, body, {'dx': dx, 'k': ks if dx == 16 or deep else 1.5, 'out': False}) for dx in (16.0, 12.3, 33.3, 0.1, 15.2, 20.1)]
    return c + [('options', body, {'dx': 16.0, 'k': 1.5, 'out': True})]
