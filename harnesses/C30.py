"""The configuration: every setting reaches the model as given, in its permitted range or not at all (loadmod.loadModel, configspec.cnf)."""
import os
import types
from load_base import Loader, PHYS, NUM
FUNCS = ['hapuamod/loadmod.py:loadModel', 'hapuamod/configspec.cnf']
BOUNDS = ('each numerical setting in turn of any value (-1e6 to 1e6), and the settings of each section of any permitted values together; each setting '
          'left out in turn, or with a text in place of a number; straight shoreline, 1 hour run')
ASSUMPTIONS = ['the text of the file is split into sections, names and values by configobj (its parser runs, on the settings in place of the symbolic values); '
               'its checking code is executed symbolically', 'settings at which a derived coefficient has no value (zero gravity, sand as heavy as '
               'seawater, no voids left, target barrier as wide as the spit) are left out']
REQUIRED = ['accepted', 'refused', 'physical', 'numerical', 'times', 'outputs', 'initial', 'default', 'needed', 'text', 'coefficients', 'tide', 'flow', 'absent']
BUDGET = {'quick': 60, 'thorough': 200}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True}
REQ = object()
# section: setting: (lowest, highest, default, setting used when another one is studied)
PP, NP, TT, OO, II, SS = 'PhysicalParameters', 'NumericalParameters', 'Time', 'OutputOptions', 'InitialConditions', 'SpatialInputs'
SPEC = {
    PP: dict(Kcoef=(0, None, REQ), RhoSed=(0, None, 2650), RhoSea=(0, None, 1025), RhoRiv=(0, None, 1000), VoidRatio=(0, 1, 0.3),
             Gravity=(0, None, 9.81), GammaRatio=(0, None, 0.5), WaveDataDepth=(0, None, REQ), ClosureDepth=(0, None, REQ),
             BeachSlope=(0, None, REQ), RiverSlope=(0, 1, REQ), GrainSize=(0, 1, REQ), CritShieldsStress=(0, 0.1, 0.0495),
             MPM_coef=(0, None, 3.97), MPM_exp=(0, None, 1.5), UpstreamLength=(0, None, REQ), RiverWidth=(0, None, REQ),
             RoughnessManning=(0, 0.3, REQ), GrainRoughness=(0, 0.3, REQ), WidthDepthRatio=(1, None, REQ), BackshoreElev=(0, None, REQ),
             MaxOutletElev=(None, None, REQ), OT_coef=(0, None, 0.0002), OT_exp=(1, None, 2), BeachTopElev=(0, None, REQ),
             SpitWidth=(0, None, REQ), TargetBarHeight=(0, None, REQ), TargetBarWidth=(0, None, REQ), MinOutletWidth=(0, None, REQ),
             OutletSedSpreadDist=(0, None, 100), OutletBankEroFac=(0, 1, 0), BarrierPermeability=(0, None, 0),
             ShorelineErosionRate=(None, None, 0)),
    NP: dict(Dx=(0, None, REQ), Beta=(0, None, 1.05), Theta=(0, 1, 0.7), Psi=(0, 0.5, 0.4), ErrTol=(0, None, 0.001), WarnTol=(0, None, 0.1),
             MaxMorChange=(0, None, 0.05)),
    TT: dict(HydDt=(0, None, REQ), MorDtMin=(0, None, REQ), MorDtMax=(0, None, REQ)),
    OO: dict(OutInt=(0, None, REQ), TsOutInt=(0, None, REQ), LogInt=(0, None, REQ), PlotInt=(0, None, 0)),
    II: dict(OutletWidth=(0, None, REQ), OutletBed=(None, None, REQ), LagoonBed=(None, None, REQ), BarrierElev=(None, None, REQ)),
    SS: dict(ShorelineLengthLeft=(0, None, None), ShorelineLengthRight=(0, None, None), BeachWidth=(0, None, None))}
BASE = {PP: PHYS, NP: {k: v for k, v in NUM.items() if k != 'MaxIt'}, TT: dict(HydDt=16, MorDtMin=32, MorDtMax=256),
        OO: dict(OutInt=600, TsOutInt=300, LogInt=600, PlotInt=30), II: dict(OutletWidth=20, OutletBed=-1, LagoonBed=-1, BarrierElev=4),
        SS: dict(ShorelineLengthLeft=32, ShorelineLengthRight=32, BeachWidth=40)}
# where a permitted setting can be anything without the straight shoreline becoming long or degenerate
SAFE = {'UpstreamLength': (24, 40), 'Dx': (12, 20), 'ShorelineLengthLeft': (20, 40), 'ShorelineLengthRight': (20, 40), 'MorDtMax': (0, 3600),
        'VoidRatio': (0, 0.9), 'Gravity': (1, 20), 'GammaRatio': (0.1, 2), 'RhoSed': (1100, 5000), 'RhoSea': (500, 2600), 'SpitWidth': (0, 70),
        'TargetBarWidth': (11, 500)}


class Conf(Loader):
    """The file's lines go through the real configobj; symbolic numbers take their places after it has been split."""

    def __init__(self, X):
        Loader.__init__(self, X)
        self.file = {s: dict(d) for s, d in BASE.items()}
        self.file[TT].update(StartTime='2020-01-01 08:30:00', EndTime='2020-01-01 09:30:00')
        self.file[NP]['MaxIt'] = 30
        self.flow, self.sea = 'flow.csv', 'sea.csv'
        self.shot, self.tide = {}, {}
        C = X.const
        ever = [C(-3e9), C(3e9)]
        self.csv['flow.csv'] = lambda: X.frame(ever, {'Flow': [C(10), C(10)]})
        self.csv['sea.csv'] = lambda: X.frame(ever, {'SeaLevel': [C(0), C(0)]})
        self.csv['waves.csv'] = lambda: self.waves(ever, [C(0), C(0)])

    def lines(self):
        self.held = {}

        def text(v):
            if isinstance(v, (str, int, float)):
                return '%r' % v if isinstance(v, float) else str(v)
            k = '@%d@' % len(self.held)
            self.held[k] = v
            return k
        out = ["ModelName = 'a model'", '[BoundaryConditions]', 'RiverFlow = ' + self.flow, 'WaveConditions = waves.csv', 'SeaLevel = ' + self.sea]
        for name, d in (('ShotnoiseHydrographParameters', self.shot), ('HarmonicTideParameters', self.tide)):
            if d:
                out.append('[[%s]]' % name)
                out += ['%s = %s' % (k, text(v)) for k, v in d.items()]
        for s, d in self.file.items():
            out.append('[%s]' % s)
            out += ['%s = %s' % (k, text(v)) for k, v in d.items()]
        return out

    def stubs(self):
        import configobj
        import configobj.validate as val
        from symx import loader
        s = Loader.stubs(self)
        me, lines = self, self.lines()
        conf = types.ModuleType('configobj')
        conf.__dict__.update(configobj.__dict__)

        class Config(configobj.ConfigObj):
            def __init__(self, path=None, *a, **k):
                configobj.ConfigObj.__init__(self, list(lines), *a, **k)
                if isinstance(path, str):
                    me.opened = path

                def put(section, key):
                    v = section[key]
                    if isinstance(v, str) and v in me.held:
                        dict.__setitem__(section, key, me.held[v])
                self.walk(put)
        conf.ConfigObj = Config
        if not isinstance(self.X.const(0), float):
            val = loader.SymPackage().script(val.__file__)
        res = types.ModuleType('pkg_resources')
        res.resource_filename = lambda mod, name: os.path.join(loader.REPO, 'hapuamod', name)
        s.update({'configobj': conf, 'validate': val, 'pkg_resources': res})
        s['configobj.validate'] = val
        return s


def load(X, L, catch=True):
    """(model, None) or (None, error)"""
    box = {}

    def go():
        box['r'] = L.load()
    e = X.raises(go, Exception)
    if e is None:
        return box['r'], None
    if not catch or isinstance(e, (AttributeError, NameError, ImportError)):
        raise e
    return None, e


def seen(X, r, section, key):
    """The setting as the model has it."""
    if section == PP:
        return r.PhysicalPars[key]
    if section == NP:
        return r.NumericalPars[key]
    if section == TT:
        return X.sec(r.TimePars[key])
    if section == OO:
        return X.sec(r.OutputOpts[key])
    n = [i for i in range(len(r.ShoreX)) if X.is_true(X.abs(r.ShoreX[i]) < 1e-9)][0]
    return {'OutletWidth': lambda: r.OutletEndWidth, 'OutletBed': lambda: r.OutletEndElev, 'LagoonBed': lambda: r.ShoreZ[0][3],
            'BarrierElev': lambda: r.ShoreZ[0][0], 'BeachWidth': lambda: -r.ShoreY[0][3],
            'ShorelineLengthLeft': lambda: -r.ShoreX[0], 'ShorelineLengthRight': lambda: r.ShoreX[-1]}[key]()


LABEL = {PP: 'physical', NP: 'numerical', TT: 'times', OO: 'outputs', II: 'initial', SS: 'initial'}


def held(X, r, section, key, v, label=None):
    got = seen(X, r, section, key)
    if section == SS and key != 'BeachWidth':
        dx = r.NumericalPars['Dx']
        X.check(X.And(got >= v - 1e-6, got < v + dx + 1e-6), label or LABEL[section])
    else:
        X.close(got, v, label or LABEL[section], 1e-9 if section in (PP, NP) else 1e-6)


def one(X, section, key):
    """A single setting of any value: refused outside its range, otherwise used as given."""
    lo, hi, default = SPEC[section][key]
    L = Conf(X)
    v = X.real('v', -1e6, 1e6)
    a, b = SAFE.get(key, (lo, hi))
    ok = X.And(*([v >= lo] if lo is not None else []), *([v <= hi] if hi is not None else []))
    safe = X.And(*([v >= a] if a is not None else []), *([v <= b] if b is not None else []))
    X.assume(X.Or(X.Not(ok), safe))
    if lo is not None:
        X.assume(X.Or(v >= lo, v <= lo - 1e-6))
    if hi is not None:
        X.assume(X.Or(v <= hi, v >= hi + 1e-6))
    L.file[section][key] = v
    r, e = load(X, L)
    if X.is_true(ok):
        X.check(e is None, 'accepted')
        if e is None:
            held(X, r, section, key, v)
            X.check(r.ModelName == 'a model', 'accepted')
    else:
        X.check(e is not None, 'refused')


def whole(X, sections):
    """All settings of a section, of any permitted values."""
    L = Conf(X)
    P = {}
    for s in sections:
        for k, (lo, hi, default) in SPEC[s].items():
            a, b = SAFE.get(k, (lo, hi))
            P[s, k] = L.file[s][k] = X.real(k, -1000 if a is None else a, 1e5 if b is None else b)
    if PP in sections:
        X.assume(P[PP, 'RhoSed'] >= P[PP, 'RhoSea'] + 1)
        X.assume(P[PP, 'TargetBarWidth'] >= P[PP, 'SpitWidth'] + 1)
    r, e = load(X, L, False)
    X.check(True, 'accepted')
    for (s, k), v in P.items():
        held(X, r, s, k, v)
    X.close(X.sec(r.TimePars['StartTime']), 30600, 'times')
    X.close(X.sec(r.TimePars['EndTime']), 34200, 'times')
    X.check(r.NumericalPars['MaxIt'] == 30, 'numerical')
    X.check(r.OutputOpts['OutFile'] == 'case_outputs.nc' and r.OutputOpts['TsOutFile'] == 'case_TSoutputs.nc', 'outputs')
    q, p = r.PhysicalPars, P if PP in sections else {(PP, k): X.const(v) for k, v in PHYS.items()}
    sub = (p[PP, 'RhoSed'] - p[PP, 'RhoSea']) * p[PP, 'Gravity'] * (1 - p[PP, 'VoidRatio'])
    X.close(q['K2coef'], p[PP, 'Kcoef'] / sub, 'coefficients')
    X.close(q['BreakerCoef'], 8 / (p[PP, 'RhoSea'] * X.pow(p[PP, 'Gravity'], X.const(1.5)) * p[PP, 'GammaRatio'] * p[PP, 'GammaRatio']), 'coefficients')
    m = (p[PP, 'TargetBarHeight'] - p[PP, 'BeachTopElev']) / (p[PP, 'TargetBarWidth'] - p[PP, 'SpitWidth'])
    X.close(q['BarRatSlope'], m, 'coefficients')
    X.close(q['BarRatInt'], p[PP, 'BeachTopElev'] - m * p[PP, 'SpitWidth'], 'coefficients')


def omitted(X, section):
    """A setting left out."""
    L = Conf(X)
    key = X.choice('key', sorted(SPEC[section]) + {NP: ['MaxIt'], TT: ['StartTime', 'EndTime']}.get(section, []))
    if section in (PP, NP):
        v = X.real('other', 0, 1)
        other = 'RiverSlope' if section == PP else 'Theta'
        if other != key:
            L.file[section][other] = v
    del L.file[section][key]
    r, e = load(X, L)
    default = 30 if key == 'MaxIt' else SPEC[section].get(key, (0, 0, REQ))[2]
    if default is REQ or default is None:
        X.check(e is not None, 'needed')
        return
    X.check(e is None, 'default')
    if e is None:
        held(X, r, section, key, default, 'default')
        if section in (PP, NP) and other != key:
            held(X, r, section, other, v)


def sectionless(X):
    """A whole section left out."""
    L = Conf(X)
    s = X.choice('section', sorted(SPEC))
    del L.file[s]
    r, e = load(X, L)
    X.check(e is not None, 'needed')


def absent(X):
    """A configuration file that is not there is an error, not an empty configuration."""
    L = Conf(X)
    L.file[PP]['RiverSlope'] = X.real('slope', 0, 1)
    there = X.choice('there', [True, False])
    if not there:
        L.f.remove(L.path)
    r, e = load(X, L)
    X.check(e is None if there else isinstance(e, FileNotFoundError), 'absent')
    if there:
        X.check(L.opened == L.path, 'absent')


def words(X, section):
    """A text, a list or nothing where a number belongs."""
    L = Conf(X)
    key = X.choice('key', sorted(SPEC[section]) + (['MaxIt'] if section == NP else []))
    L.file[section][key] = X.choice('text', ['many', '1,5', "''", '0x10', '10 m'] + (['2.5', '0', '-1'] if key == 'MaxIt' else []))
    r, e = load(X, L)
    X.check(e is not None, 'text')


def iterations(X):
    L = Conf(X)
    n = X.choice('n', [1, 2, 30, 1000])
    L.file[NP]['MaxIt'] = n
    r, e = load(X, L, False)
    X.check(r.NumericalPars['MaxIt'] == n, 'numerical')


def tide(X, which):
    """Settings of the synthetic tide: left out, the same as their documented defaults; or out of range."""
    def run(d):
        L = Conf(X)
        L.sea, L.tide = 'harmonic', d
        return load(X, L)
    rng, msl, dt = X.real('range', -5, 5), X.real('msl', -5, 5), X.real('dt', -100, 100)
    X.assume(X.Or(dt <= -1, X.And(dt >= 20, dt <= 70)))
    full = dict(MeanSeaLevel=msl, TidalRange=rng, SeaLevelDt=dt)
    if which == 'range':
        r, e = run(full)
        X.check(e is None if X.is_true(dt >= 0) else e is not None, 'tide')
        return
    X.assume(dt == 60)
    full['SeaLevelDt'] = 60
    if which == 'level':
        a, e = run({k: v for k, v in full.items() if k != 'MeanSeaLevel'})
        b, f = run(dict(full, MeanSeaLevel=0))
    else:
        a, e = run({k: v for k, v in full.items() if k != 'SeaLevelDt'})
        b, f = run(full)
    X.check(e is None and f is None, 'tide')
    if e is None and f is None:
        u, v = ([(X.sec(t), z) for t, z in zip(list(w.SeaLevelTs.index), list(w.SeaLevelTs.values))] for w in (a, b))
        X.check(len(u) == len(v), 'tide')
        for (t, x), (s, y) in zip(u, v):
            X.close(t, s, 'tide')
            X.close(x, y, 'tide')


SHOT = dict(MeanDaysBetweenEvents=4.0, MeanEventIncrease=100.0, FastDecayRate=0.25, SlowDecayRate=0.015625, FastFlowProp=0.75,
            RisingLimbTime=0.015625, HydrographDt=60, RandomSeed=5)


def flow(X, key):
    """Settings of the synthetic flow have their ranges."""
    L = Conf(X)
    v = X.real('v', -1000, 1000)
    ok = X.And(v >= 0, v <= 1) if key == 'FastFlowProp' else v >= 0
    X.assume(X.Or(v <= -1e-6, v >= 0))
    if key == 'FastFlowProp':
        X.assume(X.Or(v <= 1, v >= 1 + 1e-6))
    L.shot = {key: v}
    r, e = load(X, L)
    X.check(e is None if X.is_true(ok) else e is not None, 'flow')


def seed(X):
    L = Conf(X)
    text, good = X.choice('seed', [('17', True), ('-3', True), ('2.5', False), ('any', False)])
    L.shot = {'RandomSeed': text}
    r, e = load(X, L)
    X.check(e is None if good else e is not None, 'flow')


def drawn(X, omit):
    """The synthetic flow with a setting left out is the one with its documented default."""
    C = X.const
    big = X.real('increase', 1, 1000)

    def run(d):
        L = Conf(X)
        L.flow, L.shot = 'shotnoise', d
        n, seeds = [0], []

        class Random(object):
            def __init__(self, x=None):
                seeds.append(x)

            def random(self):
                n[0] += 1
                return X.exp(-C(6.0 / 24) / 4) if n[0] % 2 else 1 - X.exp(-C(1))

            def expovariate(self, rate):
                return -X.log(1 - self.random()) / rate
        m = types.ModuleType('random')
        m.Random = Random
        L.extra = {'random': m}
        r, e = load(X, L, False)
        return [(X.sec(t), q) for t, q in zip(list(r.FlowTs.index), list(r.FlowTs.values))], seeds
    full = dict(SHOT, MeanEventIncrease=big)
    a, s = run({k: v for k, v in full.items() if k not in omit})
    b, t = run(full)
    X.check(len(a) == len(b), 'flow')
    for (u, x), (v, y) in zip(a, b):
        X.close(u, v, 'flow')
        X.close(x, y, 'flow')
    X.check(t == [5] and s == ([None] if 'RandomSeed' in omit else [5]), 'flow')


def cases(tier):
    c = [('%s.%s' % (LABEL[s], k), one, {'section': s, 'key': k}) for s in SPEC for k in SPEC[s]]
    c += [('all-' + LABEL[s[0]], whole, {'sections': s}) for s in ([PP], [NP], [TT, OO], [II, SS])]
    c += [('omit-' + s, omitted, {'section': s}) for s in SPEC]
    c += [('text-' + s, words, {'section': s}) for s in SPEC]
    c += [('section', sectionless, {}), ('iterations', iterations, {}), ('seed', seed, {})]
    c += [('flow.' + k, flow, {'key': k}) for k in SHOT if k != 'RandomSeed']
    c += [('flow-' + k, drawn, {'omit': [k]}) for k in ('HydrographDt', 'RandomSeed')]
    return c + [('absent', absent, {})] + [('tide-' + w, tide, {'which': w}) for w in ('range', 'level', 'interval')]
