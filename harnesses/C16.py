"""What is written to the results files, and read back from them (out.py)."""
FUNCS = ['hapuamod/out.py:newOutFile', 'hapuamod/out.py:writeCurrent', 'hapuamod/out.py:readTimestep',
         'hapuamod/out.py:closestTimeIx', 'hapuamod/out.py:newTsOutFile', 'hapuamod/out.py:writeTsOut']
BOUNDS = ('3 transects, 2 river sections, up to 3 records; every value symbolic in [-100, 100] (output times: any increasing times '
          'within two days; timesteps up to 10 h), outlet open left/right/in line with and without channel on each transect, or closed')
ASSUMPTIONS = ['the netCDF file keeps the values it is given (single precision rounding of the file format is not modelled; '
               'replays use real files)']
REQUIRED = ['shore', 'levels', 'water', 'transport', 'river', 'outlet', 'boundary', 'closed', 'time', 'records', 'complete',
            'read-back', 'read-channel', 'closest', 'ts', 'axis', 'parameters', 'inputs']
BUDGET = {'quick': 40, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000}
TOL = 1e-4
DX = 16.0
KEYS = ['Kcoef', 'RhoSed', 'RhoSea', 'RhoRiv', 'VoidRatio', 'Gravity', 'GammaRatio', 'WaveDataDepth', 'ClosureDepth', 'BeachSlope',
        'RiverSlope', 'GrainSize', 'CritShieldsStress', 'UpstreamLength', 'RiverWidth', 'RoughnessManning', 'WidthDepthRatio',
        'BackshoreElev', 'MaxOutletElev', 'OT_coef', 'OT_exp', 'BeachTopElev', 'SpitWidth', 'TargetBarHeight', 'TargetBarWidth',
        'MinOutletWidth', 'OutletSedSpreadDist', 'OutletBankEroFac', 'BarrierPermeability', 'ShorelineErosionRate']


class State(object):
    def __init__(self, X, p, n, nr, chan, closed, ends):
        R = lambda name, lo=-100, hi=100: X.real(p + name, lo, hi)
        self.n, self.nr, self.closed, self.chan = n, nr, closed, chan
        out = lambda name: [R(name + str(i)) if i in chan else X.nan for i in range(n)]
        self.Y = [[R('y0%d' % i), None, None, R('y3%d' % i), R('y4%d' % i)] for i in range(n)]
        self.Z = [[R('z0%d' % i), None, None, R('z3%d' % i)] for i in range(n)]
        for j in (1, 2):
            for i, v in enumerate(out('y%d' % j)):
                self.Y[i][j] = v
            for i, v in enumerate(out('z%d' % j)):
                self.Z[i][j] = v
        self.sl, self.q, self.hs, self.dir = R('sl'), R('q'), R('hs', 0), R('dir', -3, 3)
        self.lwl, self.lv = [R('lwl%d' % i) for i in range(n)], [R('lv%d' % i) for i in range(n)]
        self.od, self.ov = out('od'), out('ov')
        self.lb, self.ob = [R('lb%d' % i) for i in range(n)], [R('ob%d' % i) for i in range(n)]
        self.lst, self.cst = [R('lst%d' % i, -.02, .02) for i in range(n - 1)], [R('cst%d' % i, 0, .02) for i in range(n)]
        self.op = [R('op%d' % i, 0, 1) for i in range(n)]
        self.rz, self.rd, self.rv, self.rb = ([R(k + str(i)) for i in range(nr)] for k in ('rz', 'rd', 'rv', 'rb'))
        self.ends = [X.nan, X.nan] if ends is None else ends
        self.ez, self.ew = R('ez'), R('ew', 0)
        self.ed, self.ev = ([X.nan] * 2 if closed else [R(k + '0'), R(k + '1')] for k in ('ed', 'ev'))
        self.eb = R('eb')

    def write(self, X, out, path, t):
        given = []

        def a(v):
            given.append(X.arr(list(v)))
            return given[-1]
        args = [a(v) for v in ([list(r) for r in self.Y], [list(r) for r in self.Z], self.lwl, self.lv, self.lb, self.od, self.ov, self.ob,
                               self.lst, self.cst, self.op, self.rz, self.rd, self.rv, self.rb, self.ends)]
        args += [X.scalar0(self.ez), X.scalar0(self.ew), a(self.ed), a(self.ev), 0.0 if self.closed else a([self.eb])]
        unchanged = X.keep(*given)
        out.writeCurrent(path, t, self.sl, self.q, self.hs, self.dir, *(args + [self.closed]))
        unchanged('inputs')


def c(X, got, want, label):
    X.close(got, want, label, TOL, nan_ok=True)


def radians(X, v):
    """Factor to radians of an angle labelled in degrees."""
    return X.pi() / 180 if v.units.startswith('deg') else 1


def record(X, f, ds, k, t, s):
    """Record k of the file holds state s at time t."""
    v = ds.variables
    n = s.n
    for name in v:
        if 'time' in v[name].dimensions:
            X.check(not f.masked(v[name][k]), 'complete')
    units = v['time'].units
    import datetime
    day = (datetime.datetime.strptime(units, 'seconds since %Y-%m-%d') - datetime.datetime(2020, 1, 1)).days
    c(X, v['time'][k] + 86400.0 * day - X.sec(t), 0, 'time')
    for j, name in enumerate(['shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y']):
        for i in range(n):
            c(X, v[name][k, i], s.Y[i][j], 'shore')
    for j, name in enumerate(['barrier_crest_z', 'outlet_bed_z', 'inner_barrier_crest_z', 'lagoon_bed_z']):
        for i in range(n):
            c(X, v[name][k, i], s.Z[i][j], 'levels')
    for i in range(n):
        c(X, v['lagoon_wl'][k, i], s.lwl[i], 'water')
        c(X, v['lagoon_vel'][k, i], s.lv[i], 'water')
        c(X, v['outlet_wl'][k, i], s.od[i] + s.Z[i][1] if i in s.chan else X.nan, 'water')
        c(X, v['outlet_vel'][k, i], s.ov[i], 'water')
        c(X, v['lagoon_bedload'][k, i], s.lb[i], 'transport')
        c(X, v['outlet_bedload'][k, i], s.ob[i], 'transport')
        c(X, v['cst'][k, i], s.cst[i] * 3600, 'transport')      # per hour
        c(X, v['overwash_proportion'][k, i], s.op[i], 'transport')
    for i in range(n - 1):
        c(X, v['lst'][k, i], s.lst[i] * 3600, 'transport')
    for i in range(s.nr):
        c(X, v['river_bed_z'][k, i], s.rz[i], 'river')
        c(X, v['river_wl'][k, i], s.rz[i] + s.rd[i], 'river')
        c(X, v['river_vel'][k, i], s.rv[i], 'river')
        c(X, v['river_bedload'][k, i], s.rb[i], 'river')
    for i in range(2):
        c(X, v['outlet_end_x'][k, i], s.ends[i], 'outlet')
    c(X, v['outlet_end_width'][k], s.ew, 'outlet')
    c(X, v['outlet_end_z'][k], s.ez, 'outlet')
    c(X, v['outlet_end_wl'][k], X.nan if s.closed else s.ez + s.ed[0], 'outlet')
    c(X, v['outlet_end_vel'][k], s.ev[0], 'outlet')
    c(X, v['dummy_xs_dep'][k], s.ed[1], 'outlet')
    c(X, v['dummy_xs_vel'][k], s.ev[1], 'outlet')
    c(X, v['outlet_end_bedload'][k], X.const(0) if s.closed else s.eb, 'transport')
    X.check(bool(v['outlet_closed'][k]) == s.closed, 'closed')
    for name, val in (('sea_level', s.sl), ('river_flow', s.q), ('hs_offshore', s.hs), ('wave_dir', s.dir)):
        c(X, v[name][k] * radians(X, v[name]), val, 'boundary')


def read(X, out, ds, k, t, s, S):
    r = out.readTimestep(ds, k)
    (sl, q, hs, d, sx, y, z, lwl, lv, owl, ov, ex, ew, ez, ev, ewl, dd, dv, oix, wp, d2, lst, cst, closed, rz, rwl, rv, mt) = r
    for got, want in ((sl, s.sl), (q, s.q), (hs, s.hs), (d, s.dir), (d2, s.dir), (ew, s.ew), (ez, s.ez), (ev, s.ev[0]),
                      (ewl, X.nan if s.closed else s.ez + s.ed[0]), (dd, s.ed[1]), (dv, s.ev[1])):
        c(X, got, want, 'read-back')
    for i in range(s.n):
        c(X, sx[i], X.const(S[i]), 'read-back')
        for j in range(5):
            c(X, y[i, j], s.Y[i][j], 'read-back')
        for j in range(4):
            c(X, z[i, j], s.Z[i][j], 'read-back')
        for got, want in ((lwl, s.lwl[i]), (lv, s.lv[i]), (owl, s.od[i] + s.Z[i][1] if i in s.chan else X.nan), (ov, s.ov[i]),
                          (cst, s.cst[i])):
            c(X, got[i], want, 'read-back')
    for i in range(s.n - 1):
        c(X, lst[i], s.lst[i], 'read-back')
    for i in range(s.nr):
        c(X, rz[i], s.rz[i], 'read-back')
        c(X, rwl[i], s.rz[i] + s.rd[i], 'read-back')
        c(X, rv[i], s.rv[i], 'read-back')
    for i in range(2):
        c(X, ex[i], s.ends[i], 'read-back')
    X.check(closed == s.closed, 'read-back')
    X.check([int(i) for i in oix] == ([] if s.closed else s.order), 'read-channel')


LAYOUT = {  # name: (transects with channel, in order from lagoon to sea), start, end transect (or between)
    'line': ([1], 1, 1), 'right': ([0, 1, 2], 0, 2), 'left': ([2, 1, 0], 2, 0), 'right-mid': ([1, 2], 1, 2.5),
    'left-mid': ([1, 0], 1, -0.5), 'closed': ([], None, None), 'line2': ([2], 2, 2)}


def state(X, p, kind, n=3, nr=2):
    order, a, b = LAYOUT[kind]
    if kind == 'closed':
        return State(X, p, n, nr, [1], True, None)
    s = State(X, p, n, nr, set(order), False, [X.const(DX * (a - 1)), X.const(DX * (b - 1))])
    s.order = order
    return s


def pars(X):
    return {k: X.real(k, 0, 10) for k in KEYS}


def results(X, first, second, start):
    f = X.files()
    out = X.mod('out', dict(f.stubs(), **X.pd()))
    path = f.path('r.nc')
    S = [-DX, 0.0, DX]
    pp = pars(X)
    og, nd = [X.real('ox', -100, 100), X.real('oy', -100, 100)], X.angle('dir0')
    t0 = X.ts(X.const(start))
    s1, s2 = state(X, 'a', first), state(X, 'b', second)
    out.newOutFile(path, 'model', t0, X.arr(S), DX, X.arr(list(s1.rz)), X.arr(og), nd, pp)
    gap = X.real('gap', 0.25, 100000)
    t2 = X.ts(X.const(start) + gap)
    s1.write(X, out, path, t0)
    s2.write(X, out, path, t2)
    ds = f.dataset(path)
    X.check(ds.dimensions['time'].size == 2, 'records')
    record(X, f, ds, 0, t0, s1)
    record(X, f, ds, 1, t2, s2)
    for i in range(3):
        c(X, ds.variables['transect_x'][i], X.const(S[i]), 'axis')
    for i in range(2):
        c(X, ds.variables['shore_segment_x'][i], X.const((S[i] + S[i + 1]) / 2), 'axis')
        c(X, ds.variables['river_dist'][i], X.const(i * DX), 'axis')
    for k in KEYS:
        c(X, ds.getncattr(k), pp[k], 'parameters')
    c(X, ds.ModelOriginX, og[0], 'parameters')
    c(X, ds.ModelOriginY, og[1], 'parameters')
    c(X, ds.ModelOrientation * X.pi() / 180, nd, 'parameters')
    read(X, out, ds, 0, t0, s1, S)
    read(X, out, ds, 1, t2, s2, S)
    ds.close()


def series(X, n, start):
    """The timeseries file."""
    f = X.files()
    out = X.mod('out', dict(f.stubs(), **X.pd()))
    path = f.path('ts.nc')
    out.newTsOutFile(path, 'model', X.ts(X.const(start)))
    t = X.const(start)
    rec = []
    for k in range(n):
        if k:
            t = t + X.real('gap%d' % k, 0.25, 80000)
        v = {m: X.real('%s%d' % (m, k), -100, 100) for m in ('sl', 'q', 'hs', 'dir', 'lev', 'flow', 'sed', 'e0', 'e1')}
        closed = X.choice('closed%d' % k, [False, True])
        ends = [X.nan] * 2 if closed else [v['e0'], v['e1']]
        dt = X.real('dt%d' % k, 0.25, 36000)
        out.writeTsOut(path, X.ts(t), v['sl'], v['q'], v['hs'], v['dir'], v['lev'], v['flow'], v['sed'], X.arr(list(ends)), closed, X.td(dt))
        rec.append((t, v, closed, ends, dt))
    ds = f.dataset(path)
    X.check(ds.dimensions['time'].size == n, 'ts')
    w = ds.variables
    import datetime
    day = (datetime.datetime.strptime(w['time'].units, 'seconds since %Y-%m-%d') - datetime.datetime(2020, 1, 1)).days
    for k, (t, v, closed, ends, dt) in enumerate(rec):
        for name in w:
            X.check(not f.masked(w[name][k]), 'complete')
        c(X, w['time'][k] + 86400.0 * day, t, 'ts')
        for name, m in (('sea_level', 'sl'), ('river_flow', 'q'), ('hs_offshore', 'hs'), ('wave_dir', 'dir'),
                        ('lagoon_level', 'lev'), ('lagoon_outflow', 'flow'), ('sed_inflow', 'sed')):
            c(X, w[name][k] * radians(X, w[name]), v[m], 'ts')
        for i in range(2):
            c(X, w['outlet_end_x'][k, i], ends[i], 'ts')
        X.check(bool(w['outlet_closed'][k]) == closed, 'ts')
        X.close(w['mordt'][k], dt, 'ts', 0.02)
    ds.close()


def closest(X, n, start):
    """The record nearest a given time."""
    f = X.files()
    out = X.mod('out', dict(f.stubs(), **X.pd()))
    path = f.path('ts.nc')
    out.newTsOutFile(path, 'model', X.ts(X.const(start)))
    t, ts = X.const(start), []
    for k in range(n):
        if k:
            t = t + X.real('gap%d' % k, 1, 80000)
        ts.append(t)
        z = X.const(0)
        out.writeTsOut(path, X.ts(t), z, z, z, z, z, z, z, X.arr([z, z]), False, X.td(X.const(60)))
    want = X.real('want', -100000, 400000)
    ds = f.dataset(path)
    ix, tm = out.closestTimeIx(ds, X.ts(want))
    ix = [int(i) for i in X_list(ix)]
    X.check(len(ix) == 1 and 0 <= ix[0] < n, 'closest')
    if len(ix) == 1:
        for k in range(n):
            X.check(X.abs(want - ts[ix[0]]) <= X.abs(want - ts[k]) + 1e-6, 'closest')
        X.close(X.sec(tm), ts[ix[0]], 'closest', 1e-4)
    ds.close()


def X_list(x):
    try:
        return list(x)
    except TypeError:
        return [x]


def cases(tier):
    c_ = []
    pairs = [('right', 'line'), ('left', 'closed'), ('closed', 'right-mid'), ('line2', 'left-mid')]
    if tier == 'thorough':
        pairs = [(a, b) for a in LAYOUT for b in LAYOUT]
    for a, b in pairs:
        for st in (0, 30600) if (a, b) == ('right', 'line') or tier == 'thorough' else (30600.25,):
            c_.append(('results-%s-%s-%g' % (a, b, st), results, {'first': a, 'second': b, 'start': st}))
    for n in (1, 2, 3):
        c_.append(('series%d' % n, series, {'n': n, 'start': 30600}))
        c_.append(('closest%d' % n, closest, {'n': n, 'start': 30600}))
    if tier == 'thorough':
        c_.append(('series4', series, {'n': 4, 'start': 86400 * 3 + 5.5}))
        c_.append(('closest4', closest, {'n': 4, 'start': 86400 * 3 + 5.5}))
    return c_
