"""The barrier geometry stays valid through any morphological step (mor.updateMorphology)."""
import mor_base as mb
FUNCS = ["hapuamod/mor.py:updateMorphology", "hapuamod/mor.py:cliffCollision"]
BOUNDS = ('6 transects, one (in some cases two neighbouring) with every position, width and level symbolic (barrier and channel widths '
          'down to 1 mm or zero), the others wide; symbolic longshore transport, overtopping and bedload on it, change limited to '
          '0.25 m; transect on or off the online channel, first, middle or last of it, with or without lagoon, relic channel; lagoon '
          'closed or open, outlet running left, right, straight out; one step (thorough: every neighbouring pair)')
ASSUMPTIONS = ['the state before the step is itself valid', 'barrier crests 2-9 m, beds -4 to 1 m']
REQUIRED = ['numbers', 'consistent', 'barrier', 'barrier-front', 'barrier-back', 'channel-width', 'lagoon-width', 'river-mouth',
            'domain', 'ends', 'channel']
BUDGET = {'quick': 90, 'thorough': 600}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 4000, 'name_div': True}


def setup(X, n, x0, e0, end, closed, focus, relic=(), lagoon=None, waves=True, flow=True):
    h = mb.Hapua(X, n, x0)
    h.channel(e0, end, closed)
    has = set(h.chan) | set(relic)
    for i in range(n):
        lag = lagoon is None or i in lagoon or i in h.online
        if i in focus:
            y4 = X.const(0)
            y3 = y4 + (X.real('lag%d' % i, 2.1 if i in h.online else 1e-3, 200) if lag else X.const(0))
            if i in has:
                y2 = y3 + X.real('gap%d' % i, 1e-3, 200)
                y1 = y2 + X.real('out%d' % i, 2.1 if i in h.chan else 0, 200)
                y0 = y1 + X.real('bar%d' % i, 1e-3, 200)
            else:
                y2 = y1 = None
                y0 = y3 + X.real('bar%d' % i, 1e-3, 200)
            h.transect(i, i in has, [y0, y1, y2, y3, y4],
                       [X.real('z0%d' % i, 2, 9), X.real('z1%d' % i, -4, 1), X.real('z2%d' % i, 2, 9), X.real('z3%d' % i, -4, 1)])
        else:
            h.transect(i, i in has)
            if not lag:
                h.Y[i][3] = h.Y[i][4]
    h.num['MaxMorChange'] = 0.25
    h.sections(2, lambda i: X.const(40), lambda i: X.const(8))       # deep: erosion goes to the banks
    if not closed:
        h.endw, h.ende = X.real('endw', 2.1, 100), X.const(-1)
        h.outdep = [X.const(0.5) if i in h.chan else X.nan for i in range(n)]
        h.ends = [X.const(h.S[e0]), X.const((end - x0) * mb.DX)]
        if end != int(end):
            h.ends[1] = h.S[int(end)] + X.real('endx', 1e-3, mb.DX - 1e-3)
    if waves:
        for i in focus:
            if i > 0:
                h.lst[i - 1] = X.real('lst%d' % i, -1, 1)
            h.cst[i] = X.real('cst%d' % i, 0, 0.02)
            h.op[i] = X.real('op%d' % i, 0, 1)
            if i not in has and not (lagoon is None or i in lagoon or i in h.online):
                h.op[i] = X.const(0)
    if flow:
        for i in focus:
            k = None
            if i in h.chan:
                k = 2 + len(h.online) + h.chan.index(i)
            elif i in h.online:
                k = 2 + h.online.index(i)
            if k is not None and k < h.N - 1:
                h.bed[k] = X.real('q%d' % i, 0, 1)
    return h


def body(X, **k):
    h = setup(X, **k)
    h.run()
    pp, n, x0, closed = h.pp, h.n, h.x0, h.closed
    if closed and not h.breach:
        ch = []
    else:
        X.check(X.And(h.e[1] >= h.S[1], h.e[1] <= h.S[-2]), 'domain')
        X.check(not X.isnan(h.e[0]), 'ends')
        if X.is_true(h.e[1] > h.e[0]):
            ch = [i for i in range(n) if X.is_true(X.And(h.e[0] <= h.S[i], h.S[i] <= h.e[1]))]
        else:
            ch = [i for i in range(n) if X.is_true(X.And(h.e[1] <= h.S[i], h.S[i] <= h.e[0]))]
        X.check(len(ch) > 0, 'channel')
    for i in range(n):
        y, z = h.y[i], h.z[i]
        X.check(not any(X.isnan(v) for v in (y[0], y[3], y[4], z[0], z[3])), 'numbers')
        o = [X.isnan(v) for v in (y[1], y[2], z[1], z[2])]
        X.check(all(o) or not any(o), 'consistent')
        if i in ch:
            X.check(not o[0], 'channel')
        if o[0]:
            X.check(y[0] > y[3], 'barrier')
        else:
            X.check(y[0] > y[1], 'barrier-front')
            X.check(y[1] >= y[2], 'channel-width')
            X.check(y[2] > y[3], 'barrier-back')
        X.check(y[3] >= y[4], 'lagoon-width')
    X.check(h.y[x0][3] - h.y[x0][4] >= pp['MinOutletWidth'], 'river-mouth')


def cases(tier):
    c = []

    def add(name, **k):
        c.append((name, body, dict({'n': 6, 'x0': 2}, **k)))
    for cl in (True, False):
        s = 'closed' if cl else 'open'
        # offline transect with nothing / a lagoon / a relic channel / both
        add(s + '-cliff', e0=2, end=2, closed=cl, focus=[4], lagoon=[0, 1, 2])
        add(s + '-lagoon', e0=2, end=2, closed=cl, focus=[4])
        add(s + '-relic-cliff', e0=2, end=2, closed=cl, focus=[4], relic=[4], lagoon=[1, 2])
        add(s + '-relic-lagoon', e0=2, end=2, closed=cl, focus=[4], relic=[4])
        add(s + '-online', e0=3, end=3, closed=cl, focus=[3 if cl else 2])
        add(s + '-online-relic', e0=4, end=4, closed=cl, focus=[3], relic=[3])
    for d in (1, -1):
        s = 'right' if d == 1 else 'left'
        x0 = 2 if d == 1 else 3
        for f in (0, 1, 2):
            add('%s-chan%d' % (s, f), x0=x0, e0=x0, end=x0 + 2 * d, closed=False, focus=[x0 + f * d])
            add('%s-chan%d-nolag' % (s, f), x0=x0, e0=x0, end=x0 + 2 * d, closed=False, focus=[x0 + f * d], lagoon=[x0])
            add('%s-chan%d-mid' % (s, f), x0=x0, e0=x0, end=x0 + 1.5 * d, closed=False, focus=[x0 + f * d])
    add('straight', e0=3, end=3, closed=False, focus=[3])
    # two transects at once
    for d in (1, -1):
        s = 'right' if d == 1 else 'left'
        x0 = 2 if d == 1 else 3
        add(s + '-pair-sea', x0=x0, e0=x0, end=x0 + 2 * d, closed=False, focus=[x0 + d, x0 + 2 * d], flow=False)
        add(s + '-pair-lagoon', x0=x0, e0=x0, end=x0 + 2 * d, closed=False, focus=[x0, x0 + d], waves=False)
    add('closed-pair', e0=2, end=2, closed=True, focus=[3, 4], relic=[3], flow=False)
    if tier != 'quick':
        for name, fn, k in list(c):
            if len(k['focus']) == 1:
                f = k['focus'][0]
                for g in (f + 1, f - 1):
                    if 0 < g < k['n'] - 1:
                        add(name + '+%d' % g, **dict(k, focus=[f, g]))
    return c
