"""Adaptive morphological timestep and change limiter (mor.updateMorphology)."""
import mor_base as mb
FUNCS = ["hapuamod/mor.py:updateMorphology", "hapuamod/mor.py:cliffCollision"]
BOUNDS = ('5 transects, lagoon closed or outlet running left or right, 2 river sections; timestep ranges 15-3840, 10-90, 60-100, 16-16, '
          '3-20 s and current timesteps at, inside and between the ends of the range; longshore transport, bedload and outlet '
          'state symbolic (thorough: more ranges and current timesteps)')
ASSUMPTIONS = ['timesteps below one day', 'rates away from the thresholds by a relative 1e-9 (rounding)',
               'barriers and channels wide, so nothing breaches, truncates or closes in the step']
REQUIRED = ['range', 'max-change', 'not-needlessly-small', 'limited-sign', 'applied', 'adapted', 'only-limited-at-minimum']
BUDGET = {'quick': 80, 'thorough': 500}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 1000, 'name_div': True}


def build(X, kind):
    n, x0 = 5, 2
    h = mb.Hapua(X, n, x0)
    e0, end = {'closed': (2, 2), 'right': (2, 2.5), 'left': (2, 1.5)}[kind]
    h.channel(e0, end, kind == 'closed')
    for i in range(n):
        h.transect(i, i in h.chan)
    h.sections(2, lambda i: X.const(40), lambda i: X.real('d%d' % i, 0.5, 8))
    for k in range(1, h.N):
        X.assume(X.Or(h.dep[k] >= 2.5 + 1e-3, h.dep[k] <= 2.5 - 1e-3))
    h.endw = X.const(40)
    h.ends = [X.const(h.S[e0]), X.const((end - x0) * mb.DX)] if kind != 'closed' else [X.nan, X.nan]
    h.outdep = [X.const(1) if i in h.chan else X.nan for i in range(n)]
    return h


def changes(h):
    d = []
    for i in range(h.n):
        for j in range(5):
            if not (j in (1, 2) and not h.has(i)):
                d.append(h.y[i][j] - h.Y[i][j])
        for j in range(4):
            if not (j in (1, 2) and not h.has(i)):
                d.append(h.z[i][j] - h.Z[i][j])
    for k in range(h.nr):
        d.append(h.r[k] - h.riv[k])
    d.append(h.w - h.endw)
    d.append(h.el - h.ende)
    if not h.closed:
        d.append(h.e[1] - h.ends[1])
    return d


def body(X, kind, lo, hi, cur, what):
    import pandas as pd
    lst = [X.real('lst%d' % i, -2, 2) if 'l' in what and i in (1, 2) else X.const(0) for i in range(4)]
    h = build(X, kind)
    bed = [X.real('q%d' % i, -2, 2) if 'b' in what and i in (1, 2, 3) else X.const(0) for i in range(h.N - 1)]
    # rates, from a step without limit
    ref = build(X, kind)
    ref.lst, ref.bed = list(lst), list(bed)
    ref.dt = 1
    ref.tp = {'MorDtMin': pd.Timedelta(seconds=1), 'MorDtMax': pd.Timedelta(seconds=1)}
    ref.run()
    rate = changes(ref)
    top = X.max(*[X.abs(r) for r in rate])
    M = 0.25
    h.lst, h.bed = list(lst), list(bed)
    h.num['MaxMorChange'] = M
    h.tp = {'MorDtMin': pd.Timedelta(seconds=lo), 'MorDtMax': pd.Timedelta(seconds=hi)}
    h.mordt0 = pd.Timedelta(seconds=cur)
    # keep every threshold comparison clear of rounding
    steps, t = {lo, hi, cur}, cur
    while t > lo:
        t = max(t / 2, lo)
        steps.add(t)
    t = cur
    while t < hi:
        t = min(t * 2, hi)
        steps.add(t)
    for t in steps:
        for lim in (M, M / 2):
            X.assume(X.Or(top * t >= lim * (1 + 1e-9), top * t <= lim * (1 - 1e-9)))
    h.run()
    dt = h.mordt.total_seconds()
    X.check(bool(lo <= dt <= hi), 'range')
    want = cur
    while want > lo and X.is_true(top * want > M):
        want = max(want / 2, lo)
    while want < hi and X.is_true(top * want < M / 2):
        want = min(want * 2, hi)
    X.check(bool(abs(dt - want) < 1e-6), 'adapted')
    ch = changes(h)
    for c in ch:
        X.check(X.abs(c) <= M + 1e-9, 'max-change')
    if dt < hi:
        X.check(top * dt >= M / 2 - 1e-9, 'not-needlessly-small')
    if dt > lo:
        X.check(top * dt <= M + 1e-9, 'only-limited-at-minimum')
    for c, r in zip(ch, rate):
        X.check(X.And(X.Implies(r > 0, c >= 0), X.Implies(r < 0, c <= 0)), 'limited-sign')
        X.close(c, X.max(X.min(r * dt, X.const(M)), X.const(-M)), 'applied')


def cases(tier):
    c = []
    R = [(15, 3840, 15), (15, 3840, 3840), (15, 3840, 240), (10, 90, 10), (10, 90, 90), (10, 90, 45), (60, 100, 75), (16, 16, 16),
         (3, 20, 20), (3, 20, 7.5)]
    if tier != 'quick':
        R += [(15, 3840, x) for x in (30, 60, 120, 480, 960, 1920)] + [(1, 3600, x) for x in (1, 3600, 7, 900)] + \
             [(0.5, 5, 0.5), (0.5, 5, 5)]
    for lo, hi, cur in R:
        for kind in ('closed', 'right', 'left'):
            for what in ('l', 'b') if tier == 'quick' else ('l', 'b', 'lb'):
                c.append(('%s-%s-%s-%s-%s' % (kind, what, lo, hi, cur), body, {'kind': kind, 'lo': lo, 'hi': hi, 'cur': cur, 'what': what}))
    return c
