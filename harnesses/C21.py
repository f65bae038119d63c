"""Boundary condition series as loaded: coverage, trimming and wave directions (loadmod.loadModel)."""
from load_base import Loader, points, value
FUNCS = ['hapuamod/loadmod.py:loadModel']
BOUNDS = ('each series in turn of 2 to 4 (thorough: 6) records at any increasing times within 3 days around the run, every value '
          'symbolic; run start, end and longest timestep any value; wave directions -360 to 720 degrees; the time of a record: '
          'every day (1-28), month, hour and minute')
ASSUMPTIONS = ['pandas.read_csv reads the values of the csv files, and gives the text of the times to the parser it is handed', 'times compared are equal or differ by 1e-3 s or more']
REQUIRED = ['coverage', 'values', 'covered', 'direction', 'range', 'columns', 'refused', 'dates']
BUDGET = {'quick': 60, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True}
DAY = 86400.0
COLS = ['WavePeriod', 'Wlen_h', 'WavePower', 'Hsig_Offshore']


def times(X, name, n, first=None):
    t = [X.real(name + 't0', 0, 3 * DAY) if first is None else first]
    for i in range(1, n):
        t.append(t[-1] + X.real('%sgap%d' % (name, i), 1, 2 * DAY))
    return t


def body(X, which, n):
    R = X.real
    L = Loader(X)
    start, dur, dtmax = R('start', DAY, 2 * DAY), R('dur', 1, 2 * DAY), R('dtmax', 1, 3600)
    end = start + dur
    L.cfg['Time'].update(StartTime=X.ts(start), EndTime=X.ts(end), MorDtMax=dtmax)
    wide = [X.const(0), X.const(6 * DAY)]
    t = times(X, 's', n)
    for u in t:
        for v in (start, end, end + dtmax):
            X.assume(X.Or(X.abs(u - v) >= 1e-3, u == v))
    v = [R('v%d' % i, -100, 100) for i in range(n)]
    flat = [X.const(1), X.const(2)]
    ft, fv = (t, v) if which == 'flow' else (wide, flat)
    L.csv['flow.csv'] = lambda: X.frame(ft, {'Flow': fv})
    st, sv = (t, v) if which == 'sea' else (wide, flat)
    L.csv['sea.csv'] = lambda: X.frame(st, {'SeaLevel': sv})
    if which == 'wave':
        deg = [R('deg%d' % i, -360, 720) for i in range(n)]
        others = {k: v if j == 0 else [R('%s%d' % (k, i), 0, 100) for i in range(n)] for j, k in enumerate(COLS)}
        L.csv['waves.csv'] = lambda: L.waves(t, deg, **others)
    else:
        L.csv['waves.csv'] = lambda: L.waves(wide, flat)
    covered = X.is_true(X.And(t[0] <= start, t[-1] >= end))
    box = {}

    def go():
        box['r'] = L.load()
    e = X.raises(go, Exception)
    if not covered:
        X.check(e is not None, 'refused')
        return
    if e is not None:
        raise e
    X.check(True, 'coverage')
    r = box['r']
    S = {'flow': r.FlowTs, 'sea': r.SeaLevelTs}.get(which)
    q = R('q', 0, 6 * DAY)
    X.assume(q >= start)
    X.assume(q <= X.min(end + dtmax, t[-1]))
    if S is not None:
        got = points(X, S)
        X.check(X.And(got[0][0] <= start, got[-1][0] >= X.min(end + dtmax, t[-1])), 'covered')
        X.close(value(X, got, q), value(X, list(zip(t, v)), q), 'values', 1e-5)
        return
    W = r.WaveTs
    for k in COLS:
        got = points(X, W[k])
        X.check(X.And(got[0][0] <= start, got[-1][0] >= X.min(end + dtmax, t[-1])), 'covered')
        if k == COLS[0]:
            X.close(value(X, got, q), value(X, list(zip(t, v)), q), 'values', 1e-5)
        for u, w in got:
            i = [j for j in range(n) if X.is_true(X.abs(u - t[j]) < 1e-4)]
            X.check(len(i) == 1, 'columns')
            if len(i) == 1:
                X.close(w, others[k][i[0]], 'columns')
    p = X.pi()
    for u, a in points(X, W['EDir_h']):
        i = [j for j in range(n) if X.is_true(X.abs(u - t[j]) < 1e-4)]
        X.check(len(i) == 1, 'columns')
        if len(i) == 1:
            X.check(X.And(a >= -p - 1e-9, a <= p + 1e-9), 'range')
            d = deg[i[0]] * p / 180 - r.ShoreNormDir
            X.check(X.Or(*[X.abs(a - d - 2 * p * k) <= 1e-9 for k in range(-3, 4)]), 'direction')


def dates(X):
    """Times are read as day/month/year hour:minute, whatever the day and month."""
    L = Loader(X)
    day, hour, minute = X.integer('day', 1, 28), X.integer('hour', 0, 23), X.integer('minute', 0, 59)
    month = X.choice('month', list(range(1, 13)))
    before = (0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335)[month - 1]
    want = (((before + day - 1) * 24) + hour) * 3600 + minute * 60
    n = []

    def on_read(path, k):
        text = X.date_text(day, month, hour, minute)
        how = k.get('date_parser')
        if how is None and k.get('parse_dates'):
            pd = L.pandas
            how = lambda t: pd.to_datetime(t, format=k.get('date_format'), dayfirst=k.get('dayfirst', False))
        if how is None:         # read as text: whatever makes times of them is not reached
            return
        n.append(path)
        box = {}

        def go():
            box['t'] = how(text)
        X.check(X.raises(go, Exception) is None, 'dates')
        if 't' in box:
            X.close(X.sec(box['t']), want, 'dates', 1e-6)
    L.on_read = on_read
    L.extra = {'datetime': X.datetime()}
    L.pandas = L.stubs()['pandas']
    L.load()
    X.check(len(n) in (0, 3), 'dates')


def cases(tier):
    c = [('dates', dates, {})]
    for w in ('flow', 'sea', 'wave'):
        for n in ((2, 3, 4) if w != 'wave' else (2, 3)) if tier == 'quick' else (2, 3, 4, 5, 6) if w != 'wave' else (2, 3, 4):
            c.append(('%s%d' % (w, n), body, {'which': w, 'n': n}))
    return c
