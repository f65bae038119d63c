"""Hot start from a results file (loadmod.loadModel)."""
import types
from load_base import Loader, points
from C16 import state, pars, LAYOUT, DX
FUNCS = ['hapuamod/loadmod.py:loadModel', 'hapuamod/out.py:closestTimeIx', 'hapuamod/out.py:readTimestep', 'hapuamod/out.py:newOutFile',
         'hapuamod/out.py:writeCurrent']
BOUNDS = ('results of 3 transects, 2 river sections and 1 to 3 records at any times within three days, every value symbolic in '
          '[-100, 100]; outlet open left, right or in line with the river, or closed; any hot start time; any shoreline orientation '
          'and origin; transect spacings 16 and 12.3 m')
ASSUMPTIONS = ['the configuration has been read and validated; csv files have been read',
               'single precision of the results file is modelled for the transect positions only']
REQUIRED = ['shore', 'levels', 'river', 'outlet', 'water', 'closed', 'place', 'nearest', 'start', 'waves', 'accepted', 'refused', 'precision', 'synthetic']
BUDGET = {'quick': 60, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True}
TOL = 1e-4


def body(X, kinds, dx, cont, mismatch=False):
    R, C = X.real, X.const
    L = Loader(X, dx)
    f = L.f
    stubs = L.stubs()
    out = X.mod('out', stubs)
    path = f.path('hot.nc')
    S = [-dx, 0.0, dx]
    og, nd = [R('ox', -100, 100), R('oy', -100, 100)], X.angle('dir0')
    st = [state(X, 'r%d' % i, k) for i, k in enumerate(kinds)]
    for i, s in enumerate(st):
        if kinds[i] != 'closed':
            s.ends = [e * dx / DX for e in s.ends]
    t = [C(30600.0)]
    for i in range(1, len(st)):
        t.append(t[-1] + R('gap%d' % i, 1, 86400))
    out.newOutFile(path, 'model', X.ts(t[0]), X.arr(S), dx, X.arr(list(st[0].rz)), X.arr(og), nd, {k: C(1) for k in pars(X)})
    for s, u in zip(st, t):
        s.write(X, out, path, X.ts(u))
    want = R('want', 0, 3 * 86400)
    for u in t:
        X.assume(X.Or(X.abs(want - u) >= 1e-3, want == u))
    L.cfg['HotStart'].update(InitialConditionsNetCDF='hot.nc', HotStartTime=X.ts(want), ContinueSimulation=cont)
    begin = C(20000)
    end = C(5 * 86400)
    L.cfg['Time'].update(StartTime=X.ts(begin), EndTime=X.ts(end))
    if mismatch:
        L.cfg['NumericalParameters']['Dx'] = dx * 1.25
    wide = [C(0), C(6 * 86400)]
    deg = R('deg', 0, 360)
    L.csv['flow.csv'] = lambda: X.frame(wide, {'Flow': [C(1), C(1)]})
    L.csv['sea.csv'] = lambda: X.frame(wide, {'SeaLevel': [C(1), C(1)]})
    L.csv['waves.csv'] = lambda: L.waves(wide, [deg, deg])
    box = {}

    def go():
        box['r'] = L.load()
    if mismatch:
        X.check(X.raises(go, Exception) is not None, 'refused')
        return
    e = X.raises(go, AssertionError)
    X.check(e is None, 'accepted')
    if e is not None:
        return
    r = box['r']
    c = lambda a, b, label: X.close(a, b, label, TOL, nan_ok=True)
    # which record: identified by the first value, which is made to differ
    k = 0
    for i in range(1, len(st)):
        if X.is_true(X.abs(want - t[i]) < X.abs(want - t[k]) - 1e-6):
            k = i
    if X.is_true(X.Or(*[X.abs(X.abs(want - t[i]) - X.abs(want - t[k])) < 1e-3 for i in range(len(st)) if i != k])):
        return
    s = st[k]
    n = s.n
    X.check(True, 'nearest')
    for i in range(n):
        c(r.ShoreX[i], S[i], 'place')
        for j in range(5):
            c(r.ShoreY[i, j], s.Y[i][j], 'shore')
        for j in range(4):
            c(r.ShoreZ[i, j], s.Z[i][j], 'levels')
        c(r.LagoonWL[i], s.lwl[i], 'water')
        c(r.LagoonVel[i], s.lv[i], 'water')
        c(r.OutletDep[i], s.od[i], 'water')
        c(r.OutletVel[i], s.ov[i], 'water')
    X.check(len(r.RiverElev) == s.nr and len(r.RiverWL) == s.nr and len(r.RiverVel) == s.nr, 'river')
    for i in range(s.nr):
        c(r.RiverElev[i], s.rz[i], 'river')
        c(r.RiverWL[i], s.rz[i] + s.rd[i], 'river')
        c(r.RiverVel[i], s.rv[i], 'river')
    for i in range(2):
        c(r.OutletEndX[i], s.ends[i], 'outlet')
        c(r.OutletEndDep[i], s.ed[i], 'outlet')
        c(r.OutletEndVel[i], s.ev[i], 'outlet')
        c(r.Origin[i], og[i], 'place')
    c(r.OutletEndWidth, s.ew, 'outlet')
    c(r.OutletEndElev, s.ez, 'outlet')
    X.check(bool(r.Closed) == s.closed, 'closed')
    for a in (r.ShoreX, r.ShoreY, r.ShoreZ, r.RiverElev, r.OutletEndX, r.OutletEndWidth, r.OutletEndElev):
        X.check(not X.single(a), 'precision')
    p = X.pi()
    X.check(X.Or(*[X.abs(r.ShoreNormDir - nd - 2 * p * j) <= 1e-6 for j in (-1, 0, 1)]), 'place')
    c(X.sec(r.TimePars['StartTime']), t[k] if cont else begin, 'start')
    c(X.sec(r.TimePars['EndTime']), end, 'start')
    got = points(X, r.WaveTs['EDir_h'])
    for u, a in got:
        X.check(X.And(a >= -p - 1e-6, a <= p + 1e-6), 'waves')
        X.check(X.Or(*[X.abs(a - (deg * p / 180 - nd) - 2 * p * j) <= 1e-6 for j in (-2, -1, 0, 1)]), 'waves')


def resumed(X, kinds):
    """The continued run meets the synthetic tide and flow of the run it continues."""
    R, C = X.real, X.const
    msl, rng, big = R('msl', -2, 2), R('range', 0, 5), R('increase', 1, 1000)
    begin, end = C(20000.0), C(20000.0 + 6 * 3600)
    t = [C(22000.0)]
    for i in range(1, len(kinds)):
        t.append(t[-1] + R('gap%d' % i, 60, 7200))
    want = R('want', 21000, 40000)
    for u in t:
        X.assume(X.Or(X.abs(want - u) >= 1e-3, want == u))
    for u in t[1:]:
        for k in range(9):
            X.assume(X.Or(X.abs(u - 20000 - 3600 * k) >= 1e-3, u == 20000 + 3600 * k))
    got = []
    for cont in (False, True):
        L = Loader(X)
        out = X.mod('out', L.stubs())
        path = L.f.path('hot.nc')
        st = [state(X, 'r%d' % i, k) for i, k in enumerate(kinds)]
        out.newOutFile(path, 'model', X.ts(t[0]), X.arr([-DX, 0.0, DX]), DX, X.arr(list(st[0].rz)), X.arr([C(0), C(0)]), C(0),
                       {k: C(1) for k in pars(X)})
        for s, u in zip(st, t):
            s.write(X, out, path, X.ts(u))
        L.cfg['HotStart'].update(InitialConditionsNetCDF='hot.nc', HotStartTime=X.ts(want), ContinueSimulation=cont)
        L.cfg['Time'].update(StartTime=X.ts(begin), EndTime=X.ts(end))
        b = L.cfg['BoundaryConditions']
        b['RiverFlow'], b['SeaLevel'] = 'shotnoise', 'harmonic'
        b['HarmonicTideParameters'] = dict(MeanSeaLevel=msl, TidalRange=rng, SeaLevelDt=C(60))
        b['ShotnoiseHydrographParameters'] = dict(
            MeanDaysBetweenEvents=C(4), MeanEventIncrease=big, FastDecayRate=C(0.25), SlowDecayRate=C(0.015625), FastFlowProp=C(0.75),
            RisingLimbTime=C(0.015625), HydrographDt=C(60), RandomSeed=5, HydrographStart=None)
        L.csv['waves.csv'] = lambda: L.waves([C(0), C(6 * 86400)], [C(0), C(0)])
        n = [0]

        class Random(object):
            def __init__(self, x=None):
                pass

            def random(self):
                n[0] += 1
                return X.exp(-C(0.125) / 4) if n[0] % 2 else 1 - X.exp(-C(1))

            def expovariate(self, rate):
                return -X.log(1 - self.random()) / rate
        m = types.ModuleType('random')
        m.Random = Random
        L.extra = {'random': m}
        r = L.load()
        got.append([points(X, r.SeaLevelTs), points(X, r.FlowTs)])
        X.close(X.sec(r.TimePars['EndTime']), end, 'start')
        if cont:
            now = X.sec(r.TimePars['StartTime'])
    for all_, some in zip(*got):
        X.check(X.And(some[0][0] <= now + 1e-6, some[-1][0] >= end), 'synthetic')
        for u, v in some:
            k = [b for a, b in all_ if X.is_true(X.abs(a - u) < 1e-3)]
            X.check(len(k) == 1, 'synthetic')
            if len(k) == 1:
                X.close(v, k[0], 'synthetic', 1e-6)


def cases(tier):
    deep = tier == 'thorough'
    c = []
    for k in ([(a,) for a in LAYOUT] if deep else [('right',), ('left',), ('line2',), ('closed',)]):
        c.append(('one-%s' % k[0], body, {'kinds': k, 'dx': 16.0, 'cont': False}))
    for k in ([(a, b) for a in LAYOUT for b in LAYOUT] if deep else [('right', 'closed'), ('closed', 'left-mid')]):
        c.append(('two-%s-%s' % k, body, {'kinds': k, 'dx': 16.0, 'cont': True}))
    c.append(('three', body, {'kinds': ('right', 'closed', 'line'), 'dx': 16.0, 'cont': True}))
    c.append(('spacing', body, {'kinds': ('right', 'left'), 'dx': 12.3, 'cont': False}))
    c.append(('synthetic', resumed, {'kinds': ('right', 'closed')}))
    c.append(('mismatch', body, {'kinds': ('right',), 'dx': 16.0, 'cont': False, 'mismatch': True}))
    return c
