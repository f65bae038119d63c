"""Start from mapped shoreline, barrier, cliff and outlet (loadmod.loadModel, geom.real2mod, geom.intersectPolyline)."""
import math
import os.path
from load_base import Loader
FUNCS = ['hapuamod/loadmod.py:loadModel', 'hapuamod/geom.py:real2mod', 'hapuamod/geom.py:intersectPolyline']
BOUNDS = ('shorelines of 4 points, bent by any amount where east-west and by a given one otherwise, along six orientations (seaward to all sides, one of them exactly north) at four map origins, distance of the '
          'river any value; 8 transects; cliff, backshore and outlet lines of 2 to 5 points at any positions which keep them between cliff '
          'and sea, drawn in either direction; outlets crossing 0 to 3 transects')
ASSUMPTIONS = ['the shapefiles have been read', 'shoreline points are evenly spaced along the map x axis',
               'the sine and cosine of the orientation are taken to double precision']
REQUIRED = ['orientation', 'origin', 'transects', 'shore', 'cliff', 'lagoon', 'outlet', 'no-outlet', 'ends', 'levels', 'straight', 'order',
            'refused', 'river', 'fits', 'files']
BUDGET = {'quick': 60, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True, 'loose': True}
DX = 16.0
W = 8.0
TOL = 1e-5
STRAIGHT = ('straight', 'back', 'gap', 'gapback', 'thin')
# seaward normals (map x, map y)
NORMAL = {'SE': (0.6, -0.8), 'SW': (-0.28, -0.96), 'NE': (0.8, 0.6), 'NW': (-0.6, 0.8), 'N': (0.0, 1.0), 'S': (0.0, -1.0)}


class Map(object):
    def __init__(self, X, normal, origin):
        self.X, self.n, self.o = X, [X.frac(str(v)) for v in NORMAL[normal]], [X.frac(str(v)) for v in origin]
        self.t = (self.n[1], -self.n[0])

    def point(self, x, y):
        """Map position of model coordinates."""
        return (self.o[0] + x * self.t[0] + y * self.n[0], self.o[1] + x * self.t[1] + y * self.n[1])

    def line(self, pts, back=False):
        r = [self.point(*p) for p in pts]
        return r[::-1] if back else r


def at(X, pts, x):
    """Heights at which a line crosses x (x not at any of its points, whose x are numbers)."""
    r = []
    for (a, u), (b, v) in zip(pts, pts[1:]):
        if (a < x) != (b < x):
            r.append(u + (v - u) * (x - a) / (b - a))
    return r


def body(X, normal, origin, outlet, back=(), lagoon='line', shape=None, wobble=True, bad=None):
    R, C = X.real, X.const
    L = Loader(X, DX)
    M = Map(X, normal, origin)
    # shoreline: evenly spaced on the map so that the straight line through it is known
    h = R('inland', 100, 1000)
    e, f = (C(0), C(0)) if not wobble else (R('bend', -4, 4), R('skew', -2, 2)) if normal in 'NS' else (C(2.5), C(-1.25))
    ny = M.n[1]
    shore = []
    for s, w, v in ((-60.0, 1, 1), (-20.0, -1, -3), (20.0, -1, 3), (60.0, 1, -1)):
        dy = e * w + f * v
        # moved along the map y axis
        shore.append((C(s) + dy * M.t[1], dy * ny))
    if bad == 'recurved':
        shore[1], shore[2] = shore[2], shore[1]
    L.shp['shore'] = (3, M.line(shore, 'shore' in back))
    L.shp['river'] = (1, [M.point(C(0), -h)])
    cliff = [(x, R('cliff%d' % i, -100, -80)) for i, x in enumerate((-200.0, 3.0, 200.0))]
    L.shp['cliff'] = (3, M.line(cliff, 'cliff' in back))
    half = 500.0 if bad == 'long' else 41.0
    if lagoon == 'line':
        lag = [(x, R('lag%d' % i, -75, -60)) for i, x in enumerate((-half, 3.0, half))]
    else:
        lag = [(x, R('lag%d' % i, -75, -60)) for i, x in enumerate((-half, 3.0, half))]
        lag = lag + [(half - 1.0, R('bank0', -79, -76)), (-half + 1.0, R('bank1', -79, -76)), lag[0]]
    L.shp['lagoon'] = (3, M.line(lag, 'lagoon' in back))
    lo, hi = (-54, -22)
    if outlet == 'thin':
        lo, hi = -100, 10
    x0, x1 = {'right': (-4.0, 37.0), 'left': (4.0, -37.0), 'one': (-4.0, 9.0), 'thin': (-4.0, 9.0), 'two': (36.0, 7.0),
              'straight': (5.0, 11.0), 'back': (-5.0, -11.0), 'gap': (11.0, 5.0), 'gapback': (-11.0, -5.0)}[outlet]
    n = 2 if outlet in ('one', 'thin', 'straight', 'back', 'gap', 'gapback') else 3
    if outlet in ('straight', 'gapback'):
        # between the same two transects
        s = 1 if x0 > 0 else -1
        x0, x1 = s * R('outx0', 1, 15), s * R('outx1', 1, 15)
        X.assume(X.abs(x1 - x0) >= 1e-3)
    xs = [x0 + (x1 - x0) * i / (n - 1) for i in range(n)]
    out = [(x, R('out%d' % i, lo, hi)) for i, x in enumerate(xs)]
    X.assume(out[-1][1] > out[0][1])
    if bad == 'doubled':
        out[1:2] = [(x1 + 1.0, out[1][1]), (x0 + 1.0, out[1][1])]
    L.shp['outlet'] = (3, M.line(out, 'outlet' in back))
    if shape:
        L.shp[shape] = (5, L.shp[shape][1])
    L.cfg['SpatialInputs'].update(Shoreline='gis/shore', RiverLocation='gis/river', BarrierBackshore='gis/lagoon', CliffToe='gis/cliff',
                                  OutletLocation='gis/outlet')
    L.cfg['BoundaryConditions'].update(RiverFlow='series/flow.csv', WaveConditions='series/waves.csv', SeaLevel='series/sea.csv')
    spit = R('spit', 4, 60)
    L.cfg['PhysicalParameters']['SpitWidth'] = spit
    obed, lbed, crest = R('outletbed', -4, 1), R('lagoonbed', -4, 1), R('crest', 2, 9)
    L.cfg['InitialConditions'].update(OutletWidth=C(W), OutletBed=obed, LagoonBed=lbed, BarrierElev=crest)
    box = {}

    def go():
        box['r'] = L.load()
    if bad or shape:
        X.check(X.raises(go, Exception) is not None, 'refused')
        return
    go()
    r = box['r']
    # files are named relative to the folder of the configuration
    folder = os.path.dirname(L.path)
    for name in ['gis/' + k for k in ('shore', 'river', 'lagoon', 'cliff', 'outlet')] + ['series/%s.csv' % k for k in ('flow', 'waves', 'sea')]:
        X.check(os.path.join(folder, name) in [os.path.normpath(str(p)) for p in L.read], 'files')
    c = lambda a, b, label: X.close(a, b, label, TOL)
    for i in range(2):
        c(r.Origin[i], M.o[i], 'origin')
    d = math.atan2(*NORMAL[normal])
    X.check(X.Or(*[X.abs(r.ShoreNormDir - d - 2 * math.pi * j) < 1e-9 for j in (-1, 0, 1)]), 'orientation')
    # transects
    S = [x for x in r.ShoreX]
    X.check(len(S) == 7, 'transects')
    if len(S) != 7:
        return
    X.check(r.ShoreY.shape == (7, 5) and r.ShoreZ.shape == (7, 4), 'transects')
    Y, Z = r.ShoreY, r.ShoreZ
    for i in range(7):
        x = DX * (i - 3)
        c(S[i], x, 'transects')
        # shoreline
        y = None
        for (a, u), (b, v) in zip(shore, shore[1:]):
            if X.is_true(C(x) <= b) or b is shore[-1][0]:
                y = u + (v - u) * (x - a) / (b - a)
                break
        c(Y[i, 0], y, 'shore')
        top = at(X, cliff, x)[0]
        c(Y[i, 4], top, 'cliff')
        if -half < x < half:
            lagoon = X.max(*at(X, lag, x))
            if outlet in STRAIGHT:
                # may be moved to make way for the outlet
                X.check(X.Or(X.abs(Y[i, 3] - lagoon) <= TOL, X.And(Y[i, 3] < lagoon, Y[i, 3] >= Y[i, 2] - 0.01)), 'lagoon')
            else:
                c(Y[i, 3], lagoon, 'lagoon')
        elif outlet not in STRAIGHT:
            c(Y[i, 3], top, 'lagoon')
        c(Z[i, 0], crest, 'levels')
        c(Z[i, 3], lbed, 'levels')
    where = [i for i in range(7) if n > 2 or outlet in ('one', 'thin') if min(xs) < DX * (i - 3) < max(xs)]
    has = [not X.is_true(X.isnan(Y[i, 1])) for i in range(7)]
    got = [i for i in range(7) if has[i]]
    for i in range(7):
        for a in (Y[i, 2], Z[i, 1], Z[i, 2]):
            X.check(X.is_true(X.isnan(a)) == (not has[i]), 'no-outlet')
    right = X.is_true(x1 > x0)
    X.check(not bool(r.Closed), 'ends')
    c(r.OutletEndWidth, W, 'ends')
    c(r.OutletEndElev, obed, 'levels')
    X.check(len(r.RiverElev) == 3, 'river')
    for i in range(3):
        c(r.RiverElev[i], lbed + L.cfg['PhysicalParameters']['RiverSlope'] * DX * (2 - i), 'river')
    if where:
        for i in where:
            mid = at(X, out, DX * (i - 3))[0]
            edge = X.max(*at(X, lag, DX * (i - 3)))
            fits = X.And(mid - W / 2 > edge, mid + W / 2 < Y[i, 0])
            if outlet == 'thin':
                X.assume(X.Or(X.abs(mid - W / 2 - edge) > 1e-3))
                X.assume(X.Or(X.abs(mid + W / 2 - Y[i, 0]) > 1e-3))
            if X.is_true(fits):
                X.check(has[i], 'outlet')
                if has[i]:
                    c(Y[i, 1], mid + W / 2, 'outlet')
                    c(Y[i, 2], mid - W / 2, 'outlet')
            else:
                X.check(outlet == 'thin', 'fits')
    if not where or outlet == 'thin' and not X.is_true(fits):
        # between two transects: the outlet leaves from the one beside it, towards it
        X.check(len(got) == 1, 'straight')
        near = [3] if where else [i for i in range(7) if X.is_true(X.abs(DX * (i - 3) - (x0 + x1) / 2) < DX) and X.is_true(DX * (i - 3) < (x0 + x1) / 2) == right]
        X.check(got == near, 'straight')
    else:
        X.check(got == where, 'no-outlet')
    i, j = (got[0], got[-1]) if right else (got[-1], got[0])
    sgn = 1 if right else -1
    c(r.OutletEndX[0], DX * (i - 3), 'ends')
    c(r.OutletEndX[1], DX * (j - 3) + sgn * DX / 2, 'ends')
    for k, g in enumerate(got if right else got[::-1]):
        c(Z[g, 1], lbed + (obed - lbed) * k / len(got), 'levels')
        c(Z[g, 2], crest, 'levels')
        c(Y[g, 1] - Y[g, 2], W, 'outlet')
        X.check(X.And(Y[g, 0] > Y[g, 1], Y[g, 2] > Y[g, 3], Y[g, 3] >= Y[g, 4]), 'order')


def cases(tier):
    far = ((1620000.0, 5240000.0), (-3000.0, -7000.0), (500.0, 0.0), (0.0, 2500.0))
    c = []

    def add(name, **k):
        c.append((name, body, k))
    outs = ['right', 'left', 'one', 'two', 'straight', 'back', 'gap', 'gapback', 'thin']
    lines = ['shore', 'cliff', 'lagoon', 'outlet']
    for i, o in enumerate(outs):
        n = list(NORMAL)[i % 6]
        add('%s-%s' % (n, o), normal=n, origin=far[i % 4], outlet=o, back=tuple(lines[j] for j in range(4) if (i >> (j % 3)) & 1 or j == i % 4),
            lagoon='line' if i % 3 else 'closed', wobble=o != 'thin')
    for i, n in enumerate(NORMAL):
        add('orient-' + n, normal=n, origin=far[(i + 1) % 4], outlet=outs[(i + 3) % 4])
    add('refused-recurved', normal='SE', origin=far[0], outlet='right', bad='recurved')
    add('refused-long', normal='NE', origin=far[0], outlet='right', bad='long')
    add('refused-doubled', normal='SW', origin=far[0], outlet='right', bad='doubled')
    for s in lines + ['river']:
        add('refused-' + s, normal='SE', origin=far[0], outlet='right', shape=s)
    if tier == 'thorough':
        for n in NORMAL:
            for i, o in enumerate(outs):
                for l in ('line', 'closed'):
                    add('%s-%s-%s' % (n, o, l), normal=n, origin=far[i % 4], outlet=o, lagoon=l, wobble=o != 'thin')
    return c
