"""When and where the barrier breaches (mor.updateMorphology)."""
import mor_base as mb
FUNCS = ["hapuamod/mor.py:updateMorphology", "hapuamod/mor.py:cliffCollision"]
BOUNDS = ('6 transects (thorough 8), river in line with either middle one; erosion cases: symbolic shoreline retreat of every inner '
          'transect and lagoon width; overtopping cases: symbolic crest, lagoon width and water level; relic-channel cases: '
          'symbolic channel width, bank position, crest and water level; lagoon closed, or open with the outlet left, right or in '
          'line; one step')
ASSUMPTIONS = ['widths, crests and shorelines 1e-6 m or more from the thresholds', 'barrier 20 m or wider where it is not being eroded']
REQUIRED = ['erosion', 'overtopping', 'relic', 'where', 'none', 'new-outlet', 'old-channel', 'restored', 'dissolved', 'connected']
BUDGET = {'quick': 90, 'thorough': 600}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 2000, 'name_div': True}
MINW = mb.PP['MinOutletWidth']


def apart(X, a, b, d=1e-6):
    X.assume(X.Or(a >= b + d, a <= b - d))


def base(X, n, x0, e0, end, closed, relic=()):
    h = mb.Hapua(X, n, x0)
    h.channel(e0, end, closed)
    has = set(h.chan) | set(relic)
    for i in range(n):
        h.transect(i, i in has)
    h.sections(2, lambda i: X.const(60), lambda i: X.const(2))
    h.outdep = [X.const(0.5) if i in h.chan else X.nan for i in range(n)]
    if not closed:
        h.ends = [X.const(h.S[e0]), X.const((end - x0) * mb.DX)]
    h.endw, h.ende = X.real('endw', 0.1, 40), X.real('ende', -4, 2)
    apart(X, h.endw, 2 * MINW)
    apart(X, h.ende, h.pp['MaxOutletElev'])
    return h


def connected(X, h, i, wid):
    """Lagoon wide enough all the way from the river to transect i."""
    x0 = h.x0
    r = range(x0 + 1, i + 1) if i > x0 else range(i, x0)
    return all(X.is_true(wid[k] > MINW) for k in r)


def created(X, h, b):
    """State after a breach which makes a new outlet at transect b."""
    y, pp = h.y[b], h.pp
    X.close(h.e[0], X.const(h.S[b]), 'where')
    X.close(h.e[1], X.const(h.S[b]), 'where')
    X.close(h.w, X.max(h.endw, X.const(2 * MINW)), 'new-outlet')
    X.close(h.el, X.min(h.ende, X.const(pp['MaxOutletElev'])), 'new-outlet')
    X.check(not X.isnan(y[1]), 'new-outlet')
    X.close(y[1] - y[2], h.w, 'new-outlet')
    X.check(X.And(y[0] - y[1] >= pp['SpitWidth'] - 1e-9, y[2] > y[3], y[3] - y[4] >= MINW), 'new-outlet')
    X.close(h.z[b][1], (h.el + h.z[b][3]) / 2, 'new-outlet')
    X.close(h.z[b][2], h.z[b][0], 'new-outlet')


def unmoved(X, h):
    X.close(h.w, h.endw, 'none')
    X.close(h.el, h.ende, 'none')
    for k in range(2):
        X.close(h.e[k], h.ends[k], 'none', nan_ok=True)


def erosion(X, n, x0, e0, end, closed, erode, narrow=(), spill=None):
    """`spill`: one more transect, whose crest the water may overtop in the same step."""
    h = base(X, n, x0, e0, end, closed)
    wid = [X.const(100)] * n
    for i in narrow:
        wid[i] = X.real('lag%d' % i, 0.5, 10)
        apart(X, wid[i], X.const(MINW))
        h.Y[i][3] = h.Y[i][4] + wid[i]
    for i in erode:
        h.Y[i][0] = h.Y[i][3] + X.real('bar%d' % i, 0.01, 0.2)
    for i in range(n - 1):
        if (i in erode or i + 1 in erode) and (closed or i != end):      # none across the outlet (C11)
            h.lst[i] = X.real('lst%d' % i, -0.5, 0.5)
    if spill is not None:
        h.Z[spill][0], h.lagwl[spill] = X.real('crest%d' % spill, 2, 6), X.real('wl%d' % spill, 0, 8)
        apart(X, h.Z[spill][0], h.lagwl[spill])
    front = {}
    for i in erode:
        front[i] = h.Y[i][0] + (h.lst[i - 1] - h.lst[i]) * h.dt / ((h.pp['ClosureDepth'] + h.Z[i][0]) * mb.DX)
        apart(X, front[i], h.Y[i][3])
    h.run()
    gone = [i for i in erode if X.is_true(front[i] <= h.Y[i][3])]
    poss = [i for i in gone if connected(X, h, i, wid)]
    near = min([abs(h.S[i]) for i in poss]) if poss else None
    want = bool(poss) and (closed or near < abs(h.S[e0]))
    spilt = spill is not None and not want and X.is_true(h.lagwl[spill] > h.Z[spill][0]) and \
        connected(X, h, spill, wid) and (closed or abs(h.S[spill]) < min(abs(h.S[e0]), abs((end - x0) * mb.DX)))
    X.check(h.breach == (want or spilt), 'erosion')
    b = None
    if spill is not None and not spilt:
        X.check(X.isnan(h.y[spill][1]) and X.isnan(h.y[spill][2]), 'none')
    if spilt:
        created(X, h, spill)
    elif want:
        b = [i for i in poss if abs(h.S[i]) == near and X.is_true(h.e[1] == h.S[i])]
        X.check(len(b) == 1, 'where')
        b = b[0]
        created(X, h, b)
    elif not closed or X.isnan(h.ends[0]):
        if not closed:
            h2 = h.ends[1]
            X.close(h.e[0], h.ends[0], 'none')
            X.check(X.abs(h.e[1] - h2) <= 1.5, 'none')
    for i in gone:
        if i != b:
            # back to a thin barrier, moving as much off the back as goes on the front
            y = h.y[i]
            X.close(y[0] - y[3], X.const(0.001), 'restored')
            X.close((y[0] - front[i]) * (h.pp['ClosureDepth'] + h.Z[i][0]), (h.Y[i][3] - y[3]) * (h.Z[i][0] - h.Z[i][3]),
                    'restored', 1e-5)
    for i in erode:
        if i not in gone:
            X.close(h.y[i][0], front[i], 'restored')
            X.close(h.y[i][3], h.Y[i][3], 'restored')


def overtopping(X, n, x0, e0, end, closed, spill, narrow=(), relic=()):
    h = base(X, n, x0, e0, end, closed, relic)
    wid = [X.const(100)] * n
    for i in narrow:
        wid[i] = X.real('lag%d' % i, 0.5, 10)
        apart(X, wid[i], X.const(MINW))
        h.Y[i][3] = h.Y[i][4] + wid[i]
    wl, crest = {}, {}
    for i in spill:
        h.Z[i][0] = X.real('crest%d' % i, 2, 6)
        crest[i] = h.Z[i][0]
        if i in h.chan:
            h.outdep[i] = X.real('od%d' % i, 0.1, 9)
            wl[i] = h.outdep[i] + h.Z[i][1]
        else:
            h.lagwl[i] = X.real('wl%d' % i, 0, 8)
            wl[i] = h.lagwl[i]
            if i in relic:
                h.Z[i][2] = X.real('inner%d' % i, 2, 6)
                crest[i] = X.max(h.Z[i][0], h.Z[i][2])
        apart(X, wl[i], crest[i])
    for i in spill:
        for j in spill:
            if i < j:
                apart(X, wl[i] - crest[i], wl[j] - crest[j], 1e-4)
    h.run()
    over = [i for i in spill if X.is_true(wl[i] > crest[i])]
    poss = []
    for i in over:
        if i in h.chan:
            ok = abs(h.S[i] - h.S[e0]) < abs((end - x0) * mb.DX - h.S[e0])     # nearer along the channel
            # a channel transect is also a lagoon transect, nearer the river than the outlet: either way, channel rule decides
        else:
            ok = connected(X, h, i, wid) and (closed or abs(h.S[i]) < min(abs(h.S[e0]), abs((end - x0) * mb.DX)))
        if ok:
            poss.append(i)
    X.check(h.breach == bool(poss), 'overtopping')
    if not poss:
        unmoved(X, h)
        return
    b = [i for i in poss if all(i == j or X.is_true(wl[i] - crest[i] > wl[j] - crest[j]) for j in poss)]
    X.check(len(b) == 1 and X.is_true(h.e[1] == h.S[b[0]]), 'where')
    b = b[0]
    if b in h.chan:
        X.close(h.e[0], h.ends[0], 'old-channel')
        for j in range(5):
            X.close(h.y[b][j], h.Y[b][j], 'old-channel')
    else:
        created(X, h, b)


def relic(X, n, x0, e0, chan, what, narrow_lag=None, other=None):
    """Closed lagoon with the channel of its last outlet still there from transect e0 on; the barrier may also erode away
    at one other transect in the same step."""
    h = base(X, n, x0, e0, e0, True, relic=chan)
    h.ends = [X.const(h.S[e0]), X.const(h.S[chan[-1]])]
    wid = [X.const(100)] * n
    if narrow_lag is not None:
        wid[narrow_lag] = X.real('lag%d' % narrow_lag, 0.5, 10)
        apart(X, wid[narrow_lag], X.const(MINW))
        h.Y[narrow_lag][3] = h.Y[narrow_lag][4] + wid[narrow_lag]
    cw = {}
    for i in chan:
        cw[i] = X.real('chan%d' % i, 0, 10)
        apart(X, cw[i], X.const(MINW))
        h.Y[i][2] = h.Y[i][1] - cw[i]
    front = {i: h.Y[i][0] for i in chan}
    over = {}
    if what == 'erode':
        for i in chan:
            h.Y[i][0] = h.Y[i][1] + X.real('bar%d' % i, 0.01, 0.2)
            for k in (i - 1, i):
                h.lst[k] = X.real('lst%d' % k, -0.5, 0.5)
        for i in chan:
            front[i] = h.Y[i][0] + (h.lst[i - 1] - h.lst[i]) * h.dt / ((h.pp['ClosureDepth'] + h.Z[i][0]) * mb.DX)
            apart(X, front[i], h.Y[i][1])
    fo = None
    if other is not None:
        h.Y[other][0] = h.Y[other][3] + X.real('bar%d' % other, 0.01, 0.2)
        for k in (other - 1, other):
            h.lst[k] = X.real('lst%d' % k, -0.5, 0.5)
        fo = h.Y[other][0] + (h.lst[other - 1] - h.lst[other]) * h.dt / ((h.pp['ClosureDepth'] + h.Z[other][0]) * mb.DX)
        apart(X, fo, h.Y[other][3])
    if what != 'erode':
        for i in chan:
            h.Z[i][0] = X.real('crest%d' % i, 2, 3.9)
        h.lagwl = [X.const(-50)] * n
        h.lagwl[e0] = X.real('wl', 0, 3.95)      # below the inner barrier: only a connected channel can spill
        for i in chan:
            apart(X, h.Z[i][0], h.lagwl[e0])
        for i in chan:
            for j in chan:
                if i < j:
                    apart(X, h.Z[i][0], h.Z[j][0], 1e-4)
    if other is not None:
        for i in chan:
            front[i] = h.Y[i][0] + (h.lst[i - 1] - h.lst[i]) * h.dt / ((h.pp['ClosureDepth'] + h.Z[i][0]) * mb.DX)
    h.run()
    joined = []
    river = range(min(x0, e0), max(x0, e0) + 1)
    if X.is_true(cw[e0] >= MINW) and all(X.is_true(wid[k] > MINW) for k in river):
        for i in chan:
            if not X.is_true(cw[i] >= MINW):
                break
            joined.append(i)
    hole = fo is not None and X.is_true(fo <= h.Y[other][3])
    through = hole and connected(X, h, other, wid)
    if joined and not through:
        X.close(h.e[0], X.const(h.S[e0]), 'connected')
    elif not h.breach:
        X.check(X.isnan(h.e[0]), 'connected')
    if what == 'erode':
        gone = [i for i in chan if X.is_true(front[i] <= h.Y[i][1])]
    else:
        gone = [i for i in chan if X.is_true(h.lagwl[e0] > h.Z[i][0])]
    poss = [i for i in joined if i in gone]
    if through and what == 'spill':
        poss = []                                # the hole in the barrier lets the water out, nothing spills
    X.check(h.breach == bool(poss or through), 'relic')
    b = None
    if hole and (poss or not through):
        # closed again by a thin barrier
        y = h.y[other]
        X.close(y[0] - y[3], X.const(0.001), 'restored')
        X.close((y[0] - fo) * (h.pp['ClosureDepth'] + h.Z[other][0]), (h.Y[other][3] - y[3]) * (h.Z[other][0] - h.Z[other][3]),
                'restored', 1e-5)
        X.check(X.isnan(y[1]) and X.isnan(y[2]), 'restored')
    elif through:
        created(X, h, other)
    if poss:
        if what == 'erode':
            b = poss[0]                          # nearest to the upstream end
        else:
            b = [i for i in poss if all(i == j or X.is_true(h.Z[i][0] < h.Z[j][0]) for j in poss)]
            X.check(len(b) == 1, 'where')
            b = b[0]
        X.close(h.e[1], X.const(h.S[b]), 'where')
        X.close(h.w, X.max(h.endw, X.const(2 * MINW)), 'old-channel')
        y = h.y[b]
        X.check(not any(X.isnan(v) for v in y), 'old-channel')
        X.check(X.And(y[0] > y[1], y[1] - y[2] >= MINW - 0.7, y[2] > y[3]), 'old-channel')
    for i in chan:
        if i == b:
            continue
        if what == 'erode' and i in gone:
            # the channel is filled with sediment from the shoreface
            X.check(X.isnan(h.y[i][1]) and X.isnan(h.z[i][1]), 'dissolved')
            X.close((front[i] - h.y[i][0]) * (h.Z[i][2] + h.pp['ClosureDepth']), cw[i] * (h.Z[i][2] - h.Z[i][1]), 'dissolved', 1e-5)
            X.close(h.z[i][0], h.Z[i][2], 'dissolved')
        else:
            X.close(h.y[i][0], front[i], 'none')
            X.close(h.y[i][1], h.Y[i][1], 'none')
            X.close(h.y[i][2], h.Y[i][2], 'none')


def cases(tier):
    c = []
    n = 6 if tier == 'quick' else 8
    for x0 in (2, 3):
        for name, e0, end, cl in (('closed', x0, x0, True), ('right', n - 2, n - 2, False), ('left', 1, 1, False),
                                  ('right1', x0 + 1, n - 2, False), ('left1', x0 - 1, 1, False), ('line', x0, x0, False)):
            chan = set() if cl else set(range(min(e0, end), max(e0, end) + 1))
            free = [i for i in range(1, n - 1) if i not in chan]
            for a in range(len(free)):
                for b in range(a, len(free)):
                    er = sorted({free[a], free[b]})
                    if tier == 'quick' and len(er) == 2 and (x0 == 3 or name in ('right1', 'left1')) and (a + b) % 2:
                        continue
                    nar = [i for i in free if i != x0 and i not in er][:1] + [i for i in er if i != x0][:1]
                    c.append(('%d-%s-erosion%s' % (x0, name, er), erosion,
                              dict(n=n, x0=x0, e0=e0, end=end, closed=cl, erode=er, narrow=nar)))
                    for j in (free if len(er) == 1 and a % 2 == x0 % 2 else ()):
                        if j not in er and not (x0 < er[0] < j or j < er[0] < x0):
                            c.append(('%d-%s-erosion%s-spill%d' % (x0, name, er, j), erosion,
                                      dict(n=n, x0=x0, e0=e0, end=end, closed=cl, erode=er, narrow=[i for i in er if i != x0], spill=j)))
                    c.append(('%d-%s-spill%s' % (x0, name, er), overtopping,
                              dict(n=n, x0=x0, e0=e0, end=end, closed=cl, spill=er, narrow=nar,
                                   relic=er[:1] if (a + b) % 3 == 0 and cl else ())))
            if not cl:
                ch = sorted(chan)
                c.append(('%d-%s-spill-channel' % (x0, name), overtopping,
                          dict(n=n, x0=x0, e0=e0, end=end, closed=cl, spill=ch[:2], narrow=())))
                c.append(('%d-%s-spill-both' % (x0, name), overtopping,
                          dict(n=n, x0=x0, e0=e0, end=end, closed=cl, spill=ch[:1] + free[:1], narrow=free[:1] if free[0] != x0 else ())))
        for what in ('erode', 'spill'):
            c.append(('%d-relic-right-%s' % (x0, what), relic, dict(n=n, x0=x0, e0=x0, chan=[x0, x0 + 1], what=what)))
            c.append(('%d-relic-left-%s' % (x0, what), relic, dict(n=n, x0=x0, e0=x0, chan=[x0, x0 - 1], what=what)))
            for o, side in ((x0 + 2, 'far'), (x0 - 1, 'near')):
                if 0 < o < n - 1:
                    c.append(('%d-relic-other-%s-%s' % (x0, side, what), relic,
                              dict(n=n, x0=x0, e0=x0, chan=[x0, x0 + 1], what=what, other=o, narrow_lag=o)))
            c.append(('%d-relic-far-right-%s' % (x0, what), relic,
                      dict(n=n, x0=x0, e0=x0 + 1, chan=[x0 + 1] + ([x0 + 2] if x0 + 2 < n - 1 else []), what=what, narrow_lag=x0 + 1)))
            c.append(('%d-relic-far-left-%s' % (x0, what), relic,
                      dict(n=n, x0=x0, e0=x0 - 1, chan=[x0 - 1] + ([x0 - 2] if x0 > 2 else []), what=what, narrow_lag=x0 - 1)))
    return c
