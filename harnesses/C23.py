"""Synthetic flow hydrograph (synth.shotNoise as used by loadmod.loadModel)."""
import types
from load_base import Loader, points, value
FUNCS = ['hapuamod/synth.py:shotNoise', 'hapuamod/loadmod.py:loadModel']
BOUNDS = ('hydrographs of up to 3 hourly intervals with up to two floods (the first of two at a given time) at any times of any size, rising limbs of 0.25 to 4 hours, '
          'random numbers any values; without floods, size parameter and fast flow proportion any values, '
          'otherwise 128 m3/s and 0.75; mean time between floods of 0.5, 4 and 4.5 days, decay '
          'rates 0.25 and 0.015625 per day')
ASSUMPTIONS = ['the random numbers are the exponentials which the real logarithms undo, in (0, 1]',
               'times compared are equal or differ by 1e-3 s or more']
REQUIRED = ['accepted', 'seed', 'covered', 'interval', 'gaps', 'positive', 'bounded', 'recession', 'before', 'rising', 'limb', 'early']
BUDGET = {'quick': 120, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True}
DAY = 86400.0
HOUR = 3600.0
FAST, SLOW = 0.25, 0.015625


def body(X, mean, rise, k, quick, one=False, begin=False, split=0.75, fixed=0, at=(2600,), early=False):
    R, C = X.real, X.const
    L = Loader(X)
    start = C(DAY + 5400)
    dtmax = C(256)
    dur = C(k * HOUR - 1024)
    end = start + dur
    inc, prop = (C(128) if quick else R('inc', 1, 1000)), (C(1) if one else C(split) if quick else R('prop', 0, 1))
    # time to each flood and size relative to the mean
    far = (k + 3 + (rise if early else 0)) * HOUR
    g = [C(at[i]) if i < fixed else R('gap%d' % i, 1, k * HOUR) if i < quick else C(far) for i in range(quick + 1)]
    if early:
        g[0] = R('gap', 600, rise * HOUR - 600)
    m = [C(2) if i < fixed or i == 0 and early else R('rel%d' % i, 0, 8) for i in range(quick + 1)]
    draws = []
    for a, b in zip(g, m):
        draws += [X.exp(-a / DAY / mean), 1 - X.exp(-b)]
    seed = 1234
    rnd = types.ModuleType('random')
    seen, n = [], [0]

    class Random(object):
        def __init__(self, x=None):
            seen.append(x)

        def random(self):
            n[0] += 1
            return draws[n[0] - 1]

        def expovariate(self, rate):
            return -X.log(1 - self.random()) / rate

    rnd.Random = Random
    L.cfg['Time'].update(StartTime=X.ts(start), EndTime=X.ts(end), MorDtMax=dtmax)
    b = L.cfg['BoundaryConditions']
    b['RiverFlow'] = 'ShotNoise'
    first = start
    text = None
    if begin:
        first = start - C(1800)
        text = X.ts(first)
    b['ShotnoiseHydrographParameters'] = dict(
        MeanDaysBetweenEvents=C(mean), MeanEventIncrease=inc, FastDecayRate=C(FAST), SlowDecayRate=None if one else C(SLOW),
        FastFlowProp=prop, RisingLimbTime=C(rise / 24), HydrographDt=C(60), RandomSeed=seed, HydrographStart=text)
    wide = [C(0), C(60 * DAY)]
    L.csv['sea.csv'] = lambda: X.frame(wide, {'SeaLevel': [C(1), C(1)]})
    L.csv['waves.csv'] = lambda: L.waves(wide, [C(0), C(0)])
    L.extra = {'random': rnd}
    # what is given
    te = []
    t = first
    for x in g:
        t = t + x
        te.append(t)
    size = [inc * x for x in m]
    limb = C(rise * HOUR)
    # times at which the order matters differ or are equal
    base = C(DAY)
    for e in te[:-1]:
        for d in (e, e - limb):
            w = (d - base) / HOUR
            X.assume(X.abs(w - X.floor(w) - 0.5) <= 0.4999)
    box = {}

    def go():
        box['r'] = L.load()
    e = X.raises(go, Exception)
    X.check(e is None, 'accepted')
    if e is not None:
        return
    X.check(len(seen) == 1 and seen[0] == seed, 'seed')
    pts = points(X, box['r'].FlowTs)
    X.check(len(pts) >= 2, 'covered')
    X.check(X.And(pts[0][0] <= start + 1e-4, pts[-1][0] >= end - 1e-4), 'covered')
    for (a, u), (c, v) in zip(pts, pts[1:]):
        X.close(c - a, HOUR, 'interval', 1e-4)
    ini1, ini2 = inc * (prop / FAST) / mean, inc * ((1 - prop) / SLOW) / mean
    top = ini1 + ini2
    for s in size[:quick]:
        top = top + s
    for a, v in pts:
        X.check(X.Not(X.isnan(v)), 'gaps')
        if X.is_true(X.isnan(v)):
            return
        X.check(v >= -1e-6, 'positive')
        X.check(v <= top * (1 + 1e-9) + 1e-6, 'bounded')

    def flow(i, t):
        """Flow at time t after i floods."""
        a, b, last = ini1, ini2, first
        for j in range(i):
            d = g[j] / DAY
            a, b, last = a * X.exp(-FAST * d) + size[j] * prop, b * X.exp(-SLOW * d) + size[j] * (1 - prop), te[j]
        d = (t - last) / DAY
        return a * X.exp(-FAST * d) + b * X.exp(-SLOW * d)

    # whole intervals between the last flood and the rising limb of the next
    for a, v in pts:
        for i in range(quick + 1):
            since = te[i - 1] if i else first
            if X.is_true(X.And(a >= since, a + HOUR <= te[i] - limb)):
                lo, hi = flow(i, a + HOUR), flow(i, a)
                X.check(X.And(v >= lo - 1e-6, v <= hi + 1e-6), 'before' if i == 0 else 'recession')
            # whole intervals within a rising limb
            if i < quick and rise > 1 and X.is_true(X.And(te[i] - limb >= since, a >= te[i] - limb, a + HOUR <= te[i], m[i] >= 0.5)):
                X.check(v >= flow(i, te[i] - limb) - 1e-6, 'rising')
                # along a straight line to the peak, to which the limbs of the floods which follow add
                if i == 0 and fixed:
                    u0, u1 = flow(i, te[i] - limb), flow(i + 1, te[i])

                    def line(t):
                        f = u0 + (u1 - u0) * (t - te[i] + limb) / limb
                        for j in range(1, quick):
                            f = f + size[j] * X.max(C(0), (t - te[j] + limb) / limb)
                        return f
                    # an interval in which no limb begins may be drawn between the ones on either side
                    own = X.Or(*[X.And(a <= e - limb, e - limb < a + HOUR) for e in te[:quick]])
                    X.check(X.And(v >= line(a) - 1e-6, v <= line(a + (1 if X.is_true(own) else 2) * HOUR) + 1e-6), 'limb')


    # a flood which begins to rise before the record starts is part way up its limb there
    if early:
        loss = flow(0, first) - flow(0, te[0])

        def ramp(t):
            return ini1 + ini2 + size[0] * X.max(C(0), (t - te[0] + limb) / limb)
        for a, v in pts:
            own = X.Or(*[X.And(a <= e, e < a + HOUR) for e in (first, te[0] - limb)])
            if X.is_true(X.And(a + HOUR <= te[0], X.Or(own, a + 2 * HOUR <= te[0]))):
                X.check(X.And(v >= ramp(a) - loss - 1e-6, v <= ramp(a + HOUR) + 1e-6), 'early')


def cases(tier):
    c = [('none', body, {'mean': 4.5, 'rise': 0.5, 'k': 3, 'quick': 0}),
         ('short', body, {'mean': 0.5, 'rise': 0.25, 'k': 3, 'quick': 1}),
         ('long', body, {'mean': 4.0, 'rise': 2.0, 'k': 4, 'quick': 1}),
         ('one', body, {'mean': 4.0, 'rise': 0.5, 'k': 2, 'quick': 0, 'one': True}),
         ('begin', body, {'mean': 4.0, 'rise': 0.5, 'k': 2, 'quick': 1, 'begin': True}),
         ('merged', body, {'mean': 4.0, 'rise': 2.0, 'k': 4, 'quick': 2, 'fixed': 1, 'at': (10800,)}),
         ('three', body, {'mean': 4.0, 'rise': 2.0, 'k': 4, 'quick': 3, 'fixed': 2, 'at': (10800, 1700)}),
         ('early', body, {'mean': 4.0, 'rise': 4.0, 'k': 4, 'quick': 1, 'early': True}),
         ('two', body, {'mean': 4.0, 'rise': 0.25, 'k': 2, 'quick': 2, 'fixed': 1})]
    return c
