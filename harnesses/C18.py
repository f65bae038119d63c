"""The main loop: which times are simulated, what each step is given, what is recorded (core.main)."""
import inspect
import types
import plot_base
from C16 import KEYS, radians
import pars_base
FUNCS = ['hapuamod/core.py:main', 'hapuamod/core.py:interpolate_at', 'hapuamod/riv.py:assembleChannel', 'hapuamod/riv.py:storeHydraulics',
         'hapuamod/riv.py:storeBedload', 'hapuamod/out.py:newOutFile', 'hapuamod/out.py:writeCurrent', 'hapuamod/out.py:newTsOutFile',
         'hapuamod/out.py:writeTsOut']
BOUNDS = ('runs of up to 3 (thorough: 4) morphological steps of any lengths within the adaptive limits, with any end time, output '
          'intervals and hydraulic timestep of which 1 to 2 (thorough: 3) fit in a step; 5 transects, 2 river sections; outlet right '
          'or left, staying open, closing or breaching at any step; the hydraulic, sediment and wave results of each step arbitrary; '
          'unsteady solution failing at any step; with or without hot-started hydraulics')
ASSUMPTIONS = ['hydraulic timestep no longer than the shortest morphological step, output intervals no shorter than the longest',
               'boundary series are linear in time, each value identifying the time it was taken at (C19 decides interpolation)',
               'times compared are equal or differ by 1e-3 s or more',
               'the solvers, transport formulae and morphology return arbitrary results (C03-C15 decide them)']
REQUIRED = ['hydraulic-times', 'boundary', 'wave-times', 'end-time', 'records', 'record-state', 'series-records', 'series-state',
            'initial-record', 'carried-over', 'morphology-inputs', 'closed', 'fallback', 'initial', 'transport-inputs', 'display', 'display-times']
BUDGET = {'quick': 60, 'thorough': 500}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True}
DX = 16.0
START = 30600.0
RATE = {'flow': 0.25, 'sea': 0.125, 'EDir_h': 0.0625, 'WavePower': 2.0, 'WavePeriod': 0.5, 'Wlen_h': 4.0, 'Hsig_Offshore': 1.0}
BASE = {'flow': 10.0, 'sea': -3.0, 'EDir_h': -1.0, 'WavePower': 5.0, 'WavePeriod': 8.0, 'Wlen_h': 90.0, 'Hsig_Offshore': 2.0}
END = 16384.0
TOL = 1e-4


class Stop(Exception):
    pass


def at(kind, t):
    """Value of a boundary series t seconds after the start."""
    return BASE[kind] + RATE[kind] * t


class Run(object):
    def __init__(self, X, steps, hyd, kind, hot, fail, exact, T, live):
        self.live, self.plots, self.drawn = live, [], []
        self.X, self.N, self.hyd, self.kind, self.fail = X, steps, hyd, kind, fail
        R, C = X.real, X.const
        self.times = (None, None)
        self.hot, self.light = hot, steps > 2
        self.exact = exact
        n = 5
        self.S = [-32.0, -16.0, 0.0, 16.0, 32.0]
        side = -1 if 'left' in kind else 1
        self.order = [3, 4] if side > 0 else [1, 0]
        nan = X.nan
        self.closed = self.closed0 = 'closed' in kind
        Y = [[C(100), nan, nan, C(60), C(40)] for i in range(n)]
        Z = [[C(3), nan, nan, C(-1)] for i in range(n)]
        # relic of an outlet where closed
        for i in self.order:
            Y[i][1], Y[i][2], Z[i][1], Z[i][2] = C(90), C(80), C(0.5), C(2)
        self.Y, self.Z = X.arr(Y), X.arr(Z)
        self.ends = X.arr([C(16.0 * side), C(32.0 * side)])
        self.width, self.elev = X.scalar0(C(12)), X.scalar0(C(0.25))
        if exact:
            self.dtmin, self.dtmax, self.hdt = C(64), C(192), C(64 / hyd)
            unit = lambda name, opts: X.choice(name, [C(v) for v in opts])
            self.T = unit('T', (64, 128, 192, 256))
            self.out, self.tsout = unit('out', (192, 256)), unit('tsout', (192,))
        else:
            self.dtmin = R('dtmin', 16, 64)
            self.dtmax = R('dtmax', 16, 128)
            X.assume(self.dtmax >= self.dtmin)
            self.hdt = R('hdt', 8, 64)
            X.assume(self.hdt <= self.dtmin - 1e-3)
            X.assume(self.dtmax <= self.hdt * (hyd + 1) - 1e-3)
            self.T = R('T', 1, 1000)
            self.out = R('out', 16, 400)
            self.tsout = R('tsout', 16, 400) if steps < 3 or kind == 'right' or T else self.out
            X.assume(self.out >= self.dtmax + 1e-3)
            X.assume(self.tsout >= self.dtmax + 1e-3)
        if live:
            self.plot = R('plot', 16, 400)
            X.assume(self.plot >= self.dtmax + 1e-3)
        self.t, self.k = C(0), -1
        self.dt = self.dtmin
        self.prev = None
        self.records, self.series = [], []
        self.river = X.arr([C(2), C(1.5)])
        self.rwl = [R('rwl%d' % i, 3, 6) for i in range(2)]
        self.rv = [R('rv%d' % i, -1, 1) for i in range(2)]
        self.lwl = [R('lwl%d' % i, 0, 4) for i in range(n)]
        self.lv = [R('lv%d' % i, 0.25, 1) for i in range(n)] if hot else [C(0)] * n
        odep = [R('od%d' % i, 0.25, 2) if i in self.order and not self.closed else nan for i in range(n)]
        ovel = [R('ov%d' % i, -1, 1) if i in self.order and not self.closed else nan for i in range(n)]
        self.odep, self.ovel = odep, ovel
        self.edep = [nan, nan] if self.closed else [R('ed%d' % i, 0.25, 2) for i in range(2)]
        self.evel = [nan, nan] if self.closed else [R('ev%d' % i, -1, 1) for i in range(2)]
        # combined channel: river, lagoon, outlet, end, sea
        self.state = {('r', i): (self.rwl[i] - self.river[i], self.rv[i]) for i in range(2)}
        for i in range(n):
            self.state[('l', i)] = (self.lwl[i] - self.Z[i, 3], self.lv[i])
            if i in self.order and not self.closed:
                self.state[('o', i)] = (odep[i], ovel[i])
        for i in range(2):
            if not self.closed:
                self.state[('e', i)] = (self.edep[i], self.evel[i])

    # expected combined channel
    def sections(self):
        if self.closed:
            return [('r', 0), ('r', 1)] + [('l', i) for i in ((2, 3, 4) if self.order[0] == 3 else (2, 1, 0))]
        return [('r', 0), ('r', 1), ('l', 2)] + [('o', i) for i in self.order] + [('e', 0), ('e', 1)]

    def load(self, *a, **k):
        X = self.X
        f = self.files
        secs = [START, START + END]
        ser = lambda kind: X.series(secs, [X.const(at(kind, 0)), X.const(at(kind, END))])
        waves = X.frame(secs, {k: [X.const(at(k, 0)), X.const(at(k, END))] for k in
                               ('EDir_h', 'WavePower', 'WavePeriod', 'Wlen_h', 'Hsig_Offshore')})
        phys = pars_base.phys(**{k: X.const(1) for k in KEYS})
        phys.update(RiverWidth=X.const(20), MinOutletWidth=X.const(4), MaxOutletElev=X.const(1), SpitWidth=X.const(8))
        zero = X.td(X.const(0))
        tp = {'StartTime': X.ts(X.const(START)), 'EndTime': X.ts(self.T + START), 'HydDt': X.td(self.hdt),
              'MorDtMin': X.td(self.dtmin), 'MorDtMax': X.td(self.dtmax)}
        oo = {'OutFile': self.path, 'OutInt': X.td(self.out), 'TsOutFile': self.tspath, 'TsOutInt': X.td(self.tsout),
              'LogInt': X.td(X.const(64 if self.exact else 1e6)), 'PlotInt': X.td(self.plot) if self.live else zero}
        return ('model', ser('flow'), waves, ser('sea'), X.arr([X.const(0), X.const(0)]), X.const(0), X.arr(self.S), self.Y, self.Z,
                self.river, self.ends, self.width, self.elev, X.arr(list(self.rwl)), X.arr(list(self.rv)), X.arr(list(self.lwl)),
                X.arr(list(self.lv)), X.arr(list(self.odep)), X.arr(list(self.ovel)), X.arr(list(self.edep)), X.arr(list(self.evel)),
                self.closed, tp, phys, pars_base.num(Dx=DX, Psi=0.5), oo)

    def token(self, name, lo=-1, hi=1):
        return self.X.real('%s-%d' % (name, self.k), lo, hi)

    def c(self, got, want, label, tol=TOL):
        self.X.close(got, want, label, tol, nan_ok=True)

    def call(self, name, a, k):
        """Arguments by the names the real function gives them."""
        return inspect.signature(self.real[name]).bind(*a, **k).arguments

    def arg(self, args, name, want, label):
        if name not in args:
            return
        got = args[name]
        if isinstance(want, list):
            self.X.check(len(got) == len(want), label)
            for g, w in zip(got, want):
                self.c(g, w, label)
        else:
            self.c(last(got), want, label)

    # stand-ins
    def steady(self, *a, **k):
        X, args = self.X, self.call('solveSteady', a, k)
        fallback = self.k >= 0
        t = self.hyd_times()[-1] if fallback else X.const(0)
        self.arg(args, 'Qin', at('flow', t), 'fallback' if fallback else 'initial')
        self.arg(args, 'DsWL', at('sea', t), 'fallback' if fallback else 'initial')
        if not fallback:
            X.check(not self.hot, 'initial')
        else:
            X.check(self.failed, 'fallback')
        s = self.sections()
        self.hydraulics(s, 'steady')
        self.inchannel = set(s)
        self.done = True
        return X.arr([self.state[i][0] for i in s]), X.arr([self.state[i][1] for i in s])

    def hydraulics(self, s, tag):
        self.state = {i: (self.token('%s-d-%s%d' % ((tag,) + i), 0.25, 2), self.token('%s-v-%s%d' % ((tag,) + i), 0.25, 1)) for i in s}

    def hyd_times(self):
        """End times of the hydraulic steps within the previous morphological step's length."""
        if self.times[0] == self.k:
            return self.times[1]
        X, r, k = self.X, [], 1
        while X.is_true(self.hdt * k <= self.dt):
            r.append(self.t + self.hdt * k)
            k += 1
        self.times = (self.k, r)
        return r

    def unsteady(self, *a, **k):
        X, args = self.X, self.call('solveFullPreissmann', a, k)
        self.k += 1
        if self.k >= self.N:
            raise BaseStop()
        self.shown()
        self.done = False
        s = self.sections()
        times = self.hyd_times()
        if 'Q_Ts' in args and 'DsWl_Ts' in args:
            X.check(len(args['Q_Ts']) == len(times) and len(args['DsWl_Ts']) == len(times), 'hydraulic-times')
            for j, t in enumerate(times):
                self.c(args['Q_Ts'][j], at('flow', t), 'hydraulic-times')
                self.c(args['DsWl_Ts'][j], at('sea', t), 'boundary')
        if 'dt' in args:
            self.c(X.sec(args['dt']), self.hdt, 'hydraulic-times')
        if 'Closed' in args:
            X.check(bool(args['Closed']) == self.closed, 'closed')
        h, v = args.get('h'), args.get('V')
        X.check(len(h) == len(s), 'carried-over')
        for j, i in enumerate(s):
            # sections which were not in the channel before take interpolated values
            if i in self.inchannel:
                self.c(h[j], self.state[i][0], 'carried-over')
                if not (self.closed and j == len(s) - 1):
                    self.c(v[j], self.state[i][1], 'carried-over')
        self.inchannel = set(s)
        self.failed = self.fail and X.is_true(X.bool('fails%d' % self.k))
        if self.failed:
            h[0] = X.const(-7)
            raise Exception('no solution')
        self.hydraulics(s, 'full')
        for j, i in enumerate(s):
            h[j], v[j] = self.state[i]
        self.done = True

    def bedload(self, *a, **k):
        X, args = self.X, self.call('calcBedload', a, k)
        X.check(self.done, 'transport-inputs')
        s = self.sections()
        self.arg(args, 'h', [self.state[i][0] for i in s], 'transport-inputs')
        self.arg(args, 'V', [self.state[i][1] for i in s], 'transport-inputs')
        self.bed = {i: self.token('bed-%s%d' % i, 0, 0.5) for i in s[:-1]}
        return X.arr([self.bed[i] for i in s[:-1]])

    def lst(self, *a, **k):
        args = self.call('longShoreTransport', a, k)
        for n in ('WavePower', 'WavePeriod', 'Wlen_h', 'EDir_h'):
            self.arg(args, n, at(n, self.t), 'wave-times')
        self.arg(args, 'Dx', self.X.const(DX), 'transport-inputs')
        self.lsts = [self.token('lst%d' % i, -0.01, 0.01) for i in range(4)]
        return self.X.arr(list(self.lsts))

    def runup(self, *a, **k):
        args = self.call('runup', a, k)
        self.arg(args, 'WavePeriod', at('WavePeriod', self.t), 'wave-times')
        self.arg(args, 'Hs_offshore', at('Hsig_Offshore', self.t), 'wave-times')
        self.ru = self.token('runup', 0, 5)
        return self.ru

    def overtopping(self, *a, **k):
        args = self.call('overtopping', a, k)
        self.arg(args, 'Runup', self.ru, 'transport-inputs')
        self.arg(args, 'SeaLevel', at('sea', self.hyd_times()[-1]), 'transport-inputs')
        self.cst = [self.token('cst%d' % i, 0, 0.01) for i in range(5)]
        self.ow = [self.token('ow%d' % i, 0, 1) for i in range(5)]
        return self.X.arr(list(self.cst)), self.X.arr(list(self.ow))

    def morphology(self, *a, **k):
        X, args = self.X, self.call('updateMorphology', a, k)
        L = 'morphology-inputs'
        s = self.sections()
        self.arg(args, 'LST', self.lsts, L)
        self.arg(args, 'CST_tot', self.cst, L)
        self.arg(args, 'OverwashProp', self.ow, L)
        self.arg(args, 'Bedload', [self.bed[i] for i in s[:-1]], L)
        self.arg(args, 'ChanDep', [self.state[i][0] for i in s], L)
        for i in range(5):
            if ('l', i) in self.state:
                self.c(args['LagoonWL'][i], self.state[('l', i)][0] + self.Z[i, 3], L)
            if ('o', i) in self.state and 'OutletDep' in args:
                self.c(args['OutletDep'][i], self.state[('o', i)][0], L)
        if 'MorDt' in args:
            self.c(X.sec(args['MorDt']), self.dt, L)
        if 'Closed' in args:
            X.check(bool(args['Closed']) == self.closed, L)
        if 'ChanFlag' in args:
            X.check([int(f) for f in args['ChanFlag']] == [{'r': 0, 'l': 1, 'o': 2, 'e': 3 + i[1]}[i[0]] for i in s], L)
        # what the lagoon, outlet were at the end of the hydraulics
        lag = [i[1] for i in s if i[0] == 'l']
        wl = {i: self.state[('l', i)][0] + self.Z[i, 3] for i in lag}
        full = [wl[min(max(i, min(lag)), max(lag))] for i in range(5)]
        rec = {'sl': at('sea', self.hyd_times()[-1]), 'q': at('flow', self.hyd_times()[-1]), 'hs': at('Hsig_Offshore', self.t),
               'dir': at('EDir_h', self.t), 'wl': full, 'state': dict(self.state), 'bed': dict(self.bed), 'lst': self.lsts,
               'cst': self.cst, 'ow': self.ow, 'closed': self.closed, 'sections': s,
               'flow': self.state[s[-1]][0] * self.state[s[-1]][1] * (self.width[()] if not self.closed else X.const(20))}
        # evolve
        change = args['ShoreY'], args['ShoreZ'], args['RiverElev']
        d = self.token('shift')
        for i in range(5):
            change[0][i, 0] = change[0][i, 0] + d
        change[1][1, 0] = change[1][1, 0] + d
        change[2][1] = change[2][1] + d * 0.25
        breach = False
        if self.closed:
            breach = 'breach' in self.kind and X.is_true(X.bool('breach%d' % self.k))
            if breach:
                args['OutletEndWidth'][...] = X.const(12)
        elif 'closing' in self.kind and X.is_true(X.bool('closes%d' % self.k)):
            args['OutletEndWidth'][...] = X.const(2)
        rec.update(Y=cells(self.Y), Z=cells(self.Z), river=list(self.river), width=self.width[()], elev=self.elev[()], ends=list(self.ends))
        if self.exact:
            dt = X.choice('dt%d' % self.k, [X.const(64), X.const(128), X.const(192)])
        else:
            dt = X.real('dt%d' % self.k, 16, 128)
            X.assume(X.And(dt >= self.dtmin, dt <= self.dtmax))
            for e in (self.T - self.t,):
                X.assume(X.Or(dt <= e - 1e-3, dt >= e + 1e-3))
        if self.k == self.N - 1:
            X.assume(dt >= self.T - self.t)
        self.dt = dt
        left = self.T - self.t
        step = left if X.is_true(dt > left) else dt
        rec['dt'] = step
        rec['from'] = self.t
        self.t = self.t + step
        rec['t'] = self.t
        self.dt = step
        if not self.exact:
            for every, done in ((self.out, self.records), (self.tsout, self.series)) + (((self.plot, self.plots),) if self.live else ()):
                due = every * (len(done) + 1)
                X.assume(X.Or(self.t >= due + 1e-3, self.t <= due - 1e-3))
        if X.is_true(self.t >= self.out * (len(self.records) + 1)):
            self.records.append(rec)
        if X.is_true(self.t >= self.tsout * (len(self.series) + 1)):
            self.series.append(rec)
        if self.live and X.is_true(self.t >= self.plot * (len(self.plots) + 1)):
            self.plots.append(rec)
        # what the next step starts from
        old = self.closed
        if breach:
            self.closed = False
        elif X.is_true(self.width[()] <= 4):
            self.closed = True
        self.ended = not X.is_true(self.t < self.T)
        return X.td(dt), breach

    def go(self):
        X = self.X
        self.inchannel = set(self.state)
        riv, coast, mor = X.mod('riv'), X.mod('coast'), X.mod('mor')
        self.real = {n: getattr(m, n) for m, ns in ((riv, ('solveSteady', 'solveFullPreissmann', 'calcBedload')), (mor, ('updateMorphology',)),
                                                    (coast, ('longShoreTransport', 'runup', 'overtopping'))) for n in ns}
        f = self.files = X.files()
        self.path, self.tspath = f.path('r.nc'), f.path('t.nc')
        out = X.mod('out', dict(f.stubs(), **X.pd()))
        stubs = {'riv': over(riv, solveSteady=self.steady, solveFullPreissmann=self.unsteady, calcBedload=self.bedload),
                 'coast': over(coast, longShoreTransport=self.lst, runup=self.runup, overtopping=self.overtopping),
                 'mor': over(mor, updateMorphology=self.morphology), 'loadmod': types.SimpleNamespace(loadModel=self.load),
                 'visualise': self.display(), 'out': out}
        core = X.mod('core', dict({'hapuamod.' + k: v for k, v in stubs.items()}, **X.pd()))
        core.main('m.cnf', True)
        X.check(self.ended, 'end-time')
        self.shown()
        self.c(self.t, self.T, 'end-time')
        self.results()

    # the live display
    def display(self):
        if not self.live:
            return types.SimpleNamespace()
        V = self.X.mod('visualise', plot_base.stubs(plot_base.Plt()))
        names = ('longSection', 'bdyCndFig', 'modelView', 'updateLongSection', 'updateBdyCndFig', 'updateModelView')

        def stand_in(name):
            def f(*a, **k):
                self.drawn.append((name, snapshot(inspect.signature(getattr(V, name)).bind(*a, **k).arguments)))
                return {'fig': name}
            return f
        return over(V, **{n: stand_in(n) for n in names})

    def shown(self):
        """What has been drawn up to the start of this step is what is due."""
        X = self.X
        if not self.live:
            return
        L = 'display'
        first = [n for n, _ in self.drawn if not n.startswith('update')]
        X.check(sorted(first) == ['bdyCndFig', 'longSection', 'modelView'], L)
        if self.k <= 0:
            for n, a in self.drawn:
                if n == 'modelView':
                    for i in range(5):
                        self.c(a['ShoreY'][i, 0], 100, L)
                    X.check(bool(a.get('Closed', False)) == self.closed0, L)
        for n, figs in (('updateLongSection', 'longSection'), ('updateBdyCndFig', 'bdyCndFig'), ('updateModelView', 'modelView')):
            ups = [a for m, a in self.drawn if m == n]
            X.check(len(ups) == len(self.plots), 'display-times')
            for a, r in zip(ups, self.plots):
                X.check(any(v == {'fig': figs} for v in a.values() if isinstance(v, dict)), L)
        for k, r in enumerate(self.plots):
            sec, bdy, view = ([a for m, a in self.drawn if m == n][k] for n in ('updateLongSection', 'updateBdyCndFig', 'updateModelView'))
            self.arg(sec, 'ChanDep', [r['state'][i][0] for i in r['sections']], L)
            self.arg(sec, 'ChanVel', [r['state'][i][1] for i in r['sections']], L)
            if 'Bedload' in sec:
                self.arg(sec, 'Bedload', [r['bed'][i] for i in r['sections'][:-1]], L)
            ts = bdy['BdyPlotTs'] if 'BdyPlotTs' in bdy else next(v for v in bdy.values() if hasattr(v, 'columns'))
            X.check(len(ts) == k + 2, L)
            self.c(X.sec(ts.index[k + 1]), START + r['t'], L, 1e-3)
            self.c(last(ts['Qin'].values[k + 1]), r['q'], L)
            self.c(last(ts['SeaLevel'].values[k + 1]), r['sl'], L)
            self.c(last(ts['Qout'].values[k + 1]), r['flow'], L)
            for i in range(5):
                for j in range(5):
                    self.c(view['ShoreY'][i, j], r['Y'][i][j], L)
                if view.get('ShoreZ') is not None:
                    self.c(view['ShoreZ'][i, 0], r['Z'][i][0], L)
                self.c(view['CST'][i], r['cst'][i], L)
            for i in range(4):
                self.c(view['LST'][i], r['lst'][i], L)
            self.c(view['EDir_h'], r['dir'], L)
            self.c(view['WavePower'], at('WavePower', r['from']), L)
            self.c(last(view['OutletEndWidth']), r['width'], L)
            for i in range(2):
                self.c(view['OutletEndX'][i], r['ends'][i], L)
            X.check(bool(view.get('Closed', False)) == r['closed'], L)
            if not r['closed']:
                X.check([int(i) for i in view['OutletChanIx']] == self.order, L)

    def results(self):
        X, f = self.X, self.files
        ds = f.dataset(self.path)
        v = ds.variables
        X.check(ds.dimensions['time'].size == len(self.records) + 1, 'records')
        t0 = v['time'][0]
        self.c(t0, START, 'initial-record', 1e-3)
        self.c(v['river_flow'][0], at('flow', 0), 'initial-record')
        self.c(v['sea_level'][0], at('sea', 0), 'initial-record')
        self.c(v['hs_offshore'][0], at('Hsig_Offshore', 0), 'initial-record')
        for k, r in enumerate(self.records, 1):
            self.c(v['time'][k], r['t'] + START, 'records', 1e-3)
            if self.light:
                self.c(v['shoreline_y'][k, 0], r['Y'][0][0], 'record-state')
                continue
            L = 'record-state'
            for name, m in (('sea_level', 'sl'), ('river_flow', 'q'), ('hs_offshore', 'hs'), ('wave_dir', 'dir')):
                self.c(v[name][k] * radians(X, v[name]), r[m], L)
            for i in range(5):
                for j, name in enumerate(['shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y']):
                    self.c(v[name][k, i], r['Y'][i][j], L)
                self.c(v['barrier_crest_z'][k, i], r['Z'][i][0], L)
                self.c(v['lagoon_wl'][k, i], r['wl'][i], L)
                self.c(v['cst'][k, i], r['cst'][i] * 3600, L)
                self.c(v['overwash_proportion'][k, i], r['ow'][i], L)
                if ('o', i) in r['state']:
                    self.c(v['outlet_vel'][k, i], r['state'][('o', i)][1], L)
                    self.c(v['outlet_bedload'][k, i], r['bed'][('o', i)], L)
                if ('l', i) in r['bed']:
                    self.c(v['lagoon_bedload'][k, i], r['bed'][('l', i)], L)
            for i in range(4):
                self.c(v['lst'][k, i], r['lst'][i] * 3600, L)
            for i in range(2):
                self.c(v['river_bed_z'][k, i], r['river'][i], L)
                self.c(v['river_wl'][k, i], r['river'][i] + r['state'][('r', i)][0], L)
                self.c(v['river_vel'][k, i], r['state'][('r', i)][1], L)
                self.c(v['river_bedload'][k, i], r['bed'][('r', i)], L)
                self.c(v['outlet_end_x'][k, i], r['ends'][i], L)
            self.c(v['outlet_end_width'][k], r['width'], L)
            self.c(v['outlet_end_z'][k], r['elev'], L)
            if not r['closed']:
                self.c(v['outlet_end_vel'][k], r['state'][('e', 0)][1], L)
                self.c(v['dummy_xs_dep'][k], r['state'][('e', 1)][0], L)
                self.c(v['outlet_end_bedload'][k], r['bed'][('e', 0)], L)
                X.check(not bool(v['outlet_closed'][k]), 'closed')
        ds.close()
        ds = f.dataset(self.tspath)
        v = ds.variables
        X.check(ds.dimensions['time'].size == len(self.series) + 1, 'series-records')
        self.c(v['time'][0], START, 'initial-record', 1e-3)
        self.c(v['river_flow'][0], at('flow', 0), 'initial-record')
        for k, r in enumerate(self.series, 1):
            self.c(v['time'][k], r['t'] + START, 'series-records', 1e-3)
            for name, m in (('sea_level', 'sl'), ('river_flow', 'q'), ('hs_offshore', 'hs'), ('wave_dir', 'dir'), ('lagoon_outflow', 'flow')):
                self.c(v[name][k] * radians(X, v[name]), r[m], 'series-state')
            self.c(v['lagoon_level'][k], X.sum(r['wl']) / 5, 'series-state')
            self.c(v['sed_inflow'][k], r['bed'][('r', 0)], 'series-state')
            X.close(v['mordt'][k], r['dt'], 'series-state', 0.02)
            for i in range(2):
                self.c(v['outlet_end_x'][k, i], r['ends'][i], 'series-state')
        ds.close()


class BaseStop(BaseException):
    """More steps than planned: the run went past its end."""


def last(x):
    try:
        return x.reshape(-1)[-1]
    except AttributeError:
        return x


def snapshot(args):
    return {k: v.copy() if hasattr(v, 'copy') and not isinstance(v, dict) else v for k, v in args.items()}


def cells(a):
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def over(m, **k):
    n = types.SimpleNamespace(**{a: getattr(m, a) for a in dir(m) if not a.startswith('__')})
    n.__dict__.update(k)
    return n


def body(X, steps, hyd, kind, hot=True, fail=False, exact=False, T=False, live=False):
    r = Run(X, steps, hyd, kind, hot, fail, exact, T, live)
    try:
        r.go()
    except BaseStop:
        X.check(False, 'end-time')


def cases(tier):
    T = tier == 'thorough'
    c = []
    for kind in ('right', 'left', 'right-closed', 'left-closed', 'right-closing', 'right-closed-breach', 'left-closed-breach'):
        for steps in (1, 2, 3) + ((4,) if T else ()):
            for hyd in (1, 2) + ((3,) if T else ()):
                if steps > 2 and hyd > 1 and not T:
                    continue
                if steps > 1 and kind in ('left', 'left-closed') and not T:
                    continue
                c.append(('%s-%d-%d' % (kind, steps, hyd), body, {'steps': steps, 'hyd': hyd, 'kind': kind}))
    for kind in ('right', 'left-closed'):
        c.append(('exact-%s' % kind, body, {'steps': 3, 'hyd': 1, 'kind': kind, 'exact': True}))
        c.append(('exact2-%s' % kind, body, {'steps': 2, 'hyd': 2, 'kind': kind, 'exact': True}))
        c.append(('fail-%s' % kind, body, {'steps': 2, 'hyd': 2, 'kind': kind, 'fail': True}))
        c.append(('cold-%s' % kind, body, {'steps': 2, 'hyd': 1, 'kind': kind, 'hot': False}))
    for kind in ('right', 'left-closed', 'right-closing', 'right-closed-breach'):
        for steps in (1, 2) + ((3,) if T else ()):
            c.append(('live-%s-%d' % (kind, steps), body, {'steps': steps, 'hyd': 1, 'kind': kind, 'live': True}))
    if T:
        c = [(a, b, dict(k, T=True)) for a, b, k in c]
    return c
