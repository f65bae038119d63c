"""Wave model output turned into wave conditions (preprocessing/WaveDataFromSwanOutput.py)."""
import datetime
import math
WHEN = datetime.datetime(2021, 2, 3, 16, 45)


def to_datetime(text):
    """As the model reads the times of its input files."""
    return datetime.datetime.strptime(text, '%d/%m/%Y %H:%M')


FUNCS = ['preprocessing/WaveDataFromSwanOutput.py']
BOUNDS = ('2 records, every hour and minute; one of them with every height, period, depth 2-200 m and wave length 10-500 m coming from 4 directions, '
          'or every height and direction at one depth and wave length, or every transport')
ASSUMPTIONS = ['the angle at the record is one that refraction from deep water can give', 'the shore normal is the one set in the script',
               'numbers are written in full (the rounding to 3 decimals in the text file is not modelled)']
REQUIRED = ['written', 'times', 'power', 'direction', 'offshore-height', 'offshore-directed', 'copied']
BUDGET = {'quick': 60, 'thorough': 200}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 2000, 'name_div': True}
DATES = [(2019, 12, 31), (2020, 2, 29)]
DAY = [-86400, 59 * 86400]
G, RHO = 9.81, 1025.0
NORMAL = 128


def record(X, i, what):
    C = X.const
    r = {'when': (X.real('h%d' % i, 0, 23), X.real('m%d' % i, 0, 59)), 'H': C(2), 'T': C(8), 'L': C(90), 'd': C(12), 'dir': C(130), 'tx': C(-3), 'ty': C(2)}
    if what == 'height':
        r['dir'] = C(X.choice('dir', [120, 60, 165, 200]))
        r.update(H=X.real('H%d' % i, 0, 20), T=X.real('T%d' % i, 1, 25), L=X.real('L%d' % i, 10, 500), d=X.real('d%d' % i, 2, 200))
    if what == 'angle':
        r['H'] = X.real('H%d' % i, 0, 20)
        r['dir'] = X.angle('a%d' % i, 0, 2 * X.pi(), open_hi=True) * 180 / X.pi()
    if what == 'transport':
        r['tx'], r['ty'] = X.real('tx%d' % i, -50, 50), X.real('ty%d' % i, -50, 50)
        X.assume(X.Or(r['tx'] * r['tx'] + r['ty'] * r['ty'] >= 1e-4))
    # angle to the shore normal, and offshore
    rel = X.const(math.radians(NORMAL)) - r['dir'] * X.pi() / 180
    s, r['c'] = X.sin(rel), X.cos(rel)
    X.assume(X.Or(r['c'] >= 1e-6, r['c'] <= -1e-6))
    r['on'] = X.is_true(r['c'] > 0)
    if r['on']:
        r['2kd'] = 2 * (2 * X.pi() / r['L']) * r['d']
        r['speed'] = 1 / X.tanh(2 * X.pi() * r['d'] / r['L'])            # offshore to local wave speed (and length)
        r['s0'] = r['speed'] * s
        X.assume(X.And(r['s0'] <= 0.999, r['s0'] >= -0.999))
    return r


def body(X, whats):
    rec = [record(X, i, w) for i, w in enumerate(whats)]
    n = len(rec)
    cols = [[X.const(0)] * n for _ in range(25)]
    for i, r in enumerate(rec):
        cols[0][i] = X.const(i)
        for k, v in zip((1, 2, 3), DATES[i]):
            cols[k][i] = X.const(v)
        cols[4][i], cols[5][i] = r['when']
        for k, v in ((6, 'H'), (8, 'T'), (10, 'dir'), (17, 'L'), (18, 'd'), (19, 'tx'), (20, 'ty')):
            cols[k][i] = r[v]
        for k in (7, 9, 11, 12, 13, 14, 15, 16, 21, 22, 23, 24):
            cols[k][i] = X.const(1 + k)
    out, opts = X.script('preprocessing/WaveDataFromSwanOutput.py', cols)
    X.check(len(out) == 1 and len(opts) == 1, 'written')
    path, k, secs, got = out[0]
    X.check(opts[0].get('skiprows') == 27, 'written')
    if k.get('date_format'):
        X.check(to_datetime(WHEN.strftime(k['date_format'])) == WHEN, 'written')
    X.check({'WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore'} <= set(got) and len(secs) == n, 'written')
    for i, r in enumerate(rec):
        X.close(secs[i], DAY[i] + r['when'][0] * 3600 + r['when'][1] * 60, 'times', 1e-5)
        X.close(got['WavePeriod'][i], r['T'], 'copied')
        X.close(got['Wlen_h'][i], r['L'], 'copied')
        f = X.sqrt(r['tx'] * r['tx'] + r['ty'] * r['ty'])
        X.close(got['WavePower'][i], RHO * G * f, 'power', 1e-3)
        e = got['EDir_h'][i]
        X.check(X.And(e >= 0, e < 360), 'direction')
        a = e * X.pi() / 180
        X.close(X.sin(a) * f, -r['tx'], 'direction', 1e-5)
        X.close(X.cos(a) * f, -r['ty'], 'direction', 1e-5)
        # height: the energy flux between wave rays is the same offshore
        h0 = got['Hsig_Offshore'][i]
        if not r['on']:
            X.close(h0, 0, 'offshore-directed')
            continue
        n_h = (1 + r['2kd'] / X.sinh(r['2kd'])) / 2
        X.check(h0 >= 0, 'offshore-height')
        X.close(h0 * h0 * r['speed'] * X.sqrt(1 - r['s0'] * r['s0']) / 2, r['H'] * r['H'] * n_h * r['c'], 'offshore-height', 1e-4)


def cases(tier):
    c = [('height', body, {'whats': ['height', '']}), ('angle', body, {'whats': ['', 'angle']}), ('transport', body, {'whats': ['', 'transport']}),
         ('transport-first', body, {'whats': ['transport', '']})]
    if tier != 'quick':
        c += [('both', body, {'whats': ['angle', 'angle']}), ('height-second', body, {'whats': ['', 'height']})]
    return c
