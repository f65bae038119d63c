"""Synthetic tide (synth.harmonicTide as used by loadmod.loadModel)."""
from load_base import Loader, points
FUNCS = ['hapuamod/synth.py:harmonicTide', 'hapuamod/loadmod.py:loadModel']
BOUNDS = ('intervals of 7, 15.525, 60, 62.1 and 372.6 minutes and runs of any length up to 6 (thorough: 16) intervals from any start time, mean '
          'level and range any value')
ASSUMPTIONS = ['the sine of a concrete angle is taken to double precision']
REQUIRED = ['covered', 'start', 'interval', 'level', 'range', 'turning', 'accepted', 'continued']
BUDGET = {'quick': 40, 'thorough': 200}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True}
PERIOD = (12 * 60 + 25.2) * 60
DAY = 86400.0


def tide(X, pts, start, msl, rng, iv):
    """The samples pts lie on the tide which passes mean level rising at the start."""
    for (a, u), (b, v) in zip(pts, pts[1:]):
        X.close(b - a, iv, 'interval', 1e-4)
    k = 0
    while not X.is_true(X.abs(start + iv * k - pts[0][0]) < 0.5 * iv):
        k += 1
        if k > 40:
            break
    for j, (t, z) in enumerate(pts):
        X.close(t, start + iv * (k + j), 'start', 1e-3)
        X.close(z, msl + rng / 2 * X.sin(X.const(iv * (k + j) / PERIOD * 2) * X.pi()), 'level', 1e-6)
        X.check(X.abs(z - msl) <= rng / 2 + 1e-6, 'range')
        # known points of the cycle, in twelfths
        ph = iv * (k + j) / PERIOD * 12
        if abs(ph - round(ph)) < 1e-9:
            f = {0: 0, 1: .5, 3: 1, 5: .5, 6: 0, 7: -.5, 9: -1, 11: -.5}.get(int(round(ph)) % 12)
            if f is not None:
                X.close(z, msl + rng / 2 * f, 'turning', 1e-6)


def body(X, minutes, k, word):
    R, C = X.real, X.const
    L = Loader(X)
    iv = minutes * 60
    start, dur, dtmax = R('start', DAY, 2 * DAY), R('dur', 1, k * iv), R('dtmax', 1, 3600)
    end = start + dur
    for j in range(k + 2 + int(3600 // iv)):
        for d in (dur, dur + dtmax):
            X.assume(X.Or(X.abs(d - iv * j) >= 1e-3, d == iv * j))
    msl, rng = R('msl', -5, 5), R('range', 0, 20)
    L.cfg['Time'].update(StartTime=X.ts(start), EndTime=X.ts(end), MorDtMax=dtmax)
    b = L.cfg['BoundaryConditions']
    b['SeaLevel'] = word
    b['HarmonicTideParameters'] = dict(MeanSeaLevel=msl, TidalRange=rng, SeaLevelDt=C(minutes))
    wide = [C(0), C(60 * DAY)]
    L.csv['flow.csv'] = lambda: X.frame(wide, {'Flow': [C(1), C(1)]})
    L.csv['waves.csv'] = lambda: L.waves(wide, [C(0), C(0)])
    box = {}

    def go():
        box['r'] = L.load()
    e = X.raises(go, AssertionError)
    X.check(e is None, 'accepted')
    if e is not None:
        return
    pts = points(X, box['r'].SeaLevelTs)
    X.check(len(pts) >= 2, 'covered')
    X.check(X.And(pts[0][0] <= start + 1e-4, pts[-1][0] >= end - 1e-4), 'covered')
    # the last step may pass the end
    X.check(pts[-1][0] >= end + dtmax - 1e-4, 'continued')
    tide(X, pts, start, msl, rng, iv)


def cases(tier):
    k = 6 if tier == 'quick' else 16
    return [('every%g-%s' % (m, w), body, {'minutes': m, 'k': k, 'word': w})
            for m, w in ((7, 'harmonic'), (15.525, 'Harmonic'), (60, 'harmonic'), (62.1, 'HARMONIC'), (372.6, 'harmonic'))]
