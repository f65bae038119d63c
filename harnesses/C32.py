"""The outlet channel lengthening, and merging with the lagoon or the sea (mor.updateMorphology)."""
import mor_base as mb
FUNCS = ['hapuamod/mor.py:updateMorphology', 'hapuamod/mor.py:cliffCollision']
BOUNDS = ('6 to 8 transects, one or two of them with every position, width, level and transport symbolic; outlet end anywhere inside a reach, moved by '
          'up to two spacings; channel of 1 to 4 transects to the left or right, old channels in an open or closed lagoon; one step '
          '(thorough: every transect)')
ASSUMPTIONS = ['the state before the step is valid and only one thing happens on a transect', 'barrier crests 2-9 m, beds -4 to 1 m',
               'water well below the crest']
REQUIRED = ['extended-front', 'extended-width', 'extended-levels', 'domain', 'joined-width', 'joined-bed', 'filled-shore', 'filled-crest', 'gone',
            'start', 'end', 'kept-front', 'kept-back', 'kept-lagoon', 'kept-cliff', 'cliff-beach', 'cliff-sediment', 'lagoon-extended', 'untouched', 'no-breach']
BUDGET = {'quick': 80, 'thorough': 600}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 2000, 'name_div': True}
EPS = 1e-4


class World(object):
    """A hapua to the right of the river or its mirror image; transects are counted from the river along the side in question."""

    def __init__(self, X, side, n=7, x0=2):
        self.X, self.side, self.n = X, side, n
        self.x0 = x0 if side > 0 else n - 1 - x0
        self.h = mb.Hapua(X, n, self.x0)

    def ix(self, k):
        """Transect k counted in the direction of the outlet (k = 2 in line with the river)."""
        return k if self.side > 0 else self.n - 1 - k

    def x(self, k):
        return (k - 2) * mb.DX * self.side

    def drift(self, k, q):
        """Sediment q per second from the reach before transect k (away from the river) lost to the reach."""
        j = self.ix(k)
        if self.side > 0:
            self.h.lst[j - 1] = -q
        else:
            self.h.lst[j] = q


def build(X, side, e0, end, closed, sym, relic=(), lagoon=None, n=8):
    """sym: {transect: what is symbolic}; returns the world."""
    w = World(X, side, n)
    h = w.h
    e = w.ix(e0)
    h.channel(e, end if end == 'x' else w.ix(end) if side < 0 else end, closed)
    has = set(h.chan) | set(w.ix(k) for k in relic)
    for k in range(n):
        i = w.ix(k)
        lag = lagoon is None or k in lagoon or i in h.online
        if k in sym:
            s = sym[k]
            y4 = X.const(-40)
            y3 = y4 + (X.real('lag%d' % k, *((15, 60) if i in h.online else (0.05, 60))) if lag else X.const(0))
            z = [X.real('z0%d' % k, 2, 9), X.real('z1%d' % k, -4, 1), X.real('z2%d' % k, 2, 9), X.real('z3%d' % k, -4, 1)]
            if i in has:
                y2 = y3 + X.real('gap%d' % k, *s.get('gap', (20, 200)))
                y1 = y2 + X.real('out%d' % k, 3, 40)
                y0 = y1 + X.real('bar%d' % k, *s.get('bar', (20, 200)))
            else:
                y2 = y1 = None
                y0 = y3 + X.real('bar%d' % k, *s.get('beach', (100, 300)))
            h.transect(i, i in has, [y0, y1, y2, y3, y4], z)
        else:
            h.transect(i, i in has)
            if not lag:
                h.Y[i][3] = h.Y[i][4]
    h.sections(2, lambda i: X.const(40), lambda i: X.const(8))       # deep: erosion goes to the banks
    if not closed:
        h.endw, h.ende = X.real('endw', 10, 80), X.real('ende', -4, -1)
        h.outdep = [X.const(0.5) if i in h.chan else X.nan for i in range(n)]
        h.ends = [X.const(w.x(e0)), X.const(w.x(end) + 4 * side)]
    return w


def section(h, i, chan):
    return 2 + (len(h.online) + h.chan.index(i) if chan else h.online.index(i))


def erode(X, w, k, chan, hi):
    """Bank erosion (m3/s) of the channel, or of the lagoon, at transect k; nothing else changes."""
    h, i = w.h, w.ix(k)
    s = section(h, i, chan)
    q = X.real('q%d' % k, 0, hi)
    # what is eroded goes on with the flow
    for r in range(s, h.N - 1):
        h.bed[r] = h.bed[r] + q
    return q


def same(X, w, but=()):
    """All else as it was (but for the shoreline, on which drift and river sediment are distributed)."""
    h = w.h
    for k in range(w.n):
        i = w.ix(k)
        if k in but:
            continue
        for j in range(1, 5):
            if X.isnan(h.Y[i][j]):
                X.check(X.isnan(h.y[i][j]), 'untouched')
            else:
                X.close(h.y[i][j], h.Y[i][j], 'untouched')
        for j in range(4):
            if X.isnan(h.Z[i][j]):
                X.check(X.isnan(h.z[i][j]), 'untouched')
            else:
                X.close(h.z[i][j], h.Z[i][j], 'untouched')


def apart(X, a, b, by=EPS):
    X.assume(X.Or(a >= b + by, a <= b - by))


def gone(X, h, i):
    X.check(all(X.isnan(v) for v in (h.y[i][1], h.y[i][2], h.z[i][1], h.z[i][2])), 'gone')


def extend(X, side, e0, end, n, far=False):
    """The outlet end driven past one or two transects, or towards the edge."""
    w = build(X, side, e0, end, False, {k: {} for k in range(end + 1, n - 1)}, n=n)
    h = w.h
    frac = X.real('at', 0.01, mb.DX - 0.01)
    h.ends[1] = X.const(w.x(end)) + side * frac
    # transport carried to the outlet by the waves
    q = X.real('lst', 0, 100 if far else 50)
    a, b = w.ix(end), w.ix(end + 1)
    h.lst[min(a, b)] = side * q
    pp = h.pp
    spit = (X.const(pp['BeachTopElev']) - h.ende) * pp['SpitWidth']
    move = q * h.dt / spit
    X.assume(h.endw - move > 2.5)
    tip = frac + move / 2                     # from transect `end`
    last = n - 2
    for k in range(end + 1, n):
        apart(X, tip, (k - end) * mb.DX)
    h.run()
    X.check(not h.breach, 'no-breach')
    X.close(h.e[0], h.ends[0], 'start')
    new = [k for k in range(end + 1, last + 1) if X.is_true(tip > (k - end) * mb.DX)]
    want = X.min(tip, X.const((last - end) * mb.DX))
    X.close((h.e[1] - w.x(end)) * side, want, 'domain' if far else 'end')
    wide = h.endw - move
    X.close(h.w, wide, 'end')
    for k in new:
        i = w.ix(k)
        X.close(h.y[i][1], h.y[i][0] - pp['SpitWidth'], 'extended-front')
        X.close(h.y[i][1] - h.y[i][2], wide, 'extended-width')
        X.close(h.z[i][1], h.ende, 'extended-levels')
        X.close(h.z[i][2], h.Z[i][0], 'extended-levels')
        X.close(h.z[i][0], X.const(pp['BeachTopElev']), 'extended-levels')
        X.close(h.z[i][3], h.Z[i][3], 'untouched')
        X.close(h.y[i][3], h.Y[i][3], 'untouched')
        X.close(h.y[i][4], h.Y[i][4], 'untouched')
    same(X, w, new)


def joined(X, w, k, y1, y2, y3, y4):
    """The channel at transect k, its banks and the lagoon's having moved so, is now part of the lagoon."""
    h, i = w.h, w.ix(k)
    Z = h.Z[i]
    gone(X, h, i)
    X.close(h.y[i][3], y3 + (y1 - y2), 'joined-width')
    X.close(h.y[i][4], y4, 'joined-width')
    X.close(h.z[i][3] * (h.y[i][3] - h.y[i][4]), Z[1] * (y1 - y2) + Z[3] * (y3 - y4), 'joined-bed', EPS)
    X.close(h.z[i][0], Z[0], 'untouched')


def lagoonward(X, side, e0, end, k, closed=False, lagoon=None):
    """The lagoon bank at a transect of an old channel, or the channel bank, erodes through."""
    relic = [k] if closed or k < e0 else []
    w = build(X, side, e0, end, closed, {k: {'gap': (1e-3, 6)}}, relic=relic, lagoon=lagoon)
    h, i = w.h, w.ix(k)
    Y, Z, pp = h.Y[i], h.Z[i], h.pp
    chan = not relic
    q = erode(X, w, k, chan, 4)
    v = q / 2 * h.dt / mb.DX
    y = list(Y)
    if chan:
        X.assume(Z[0] >= Z[1] + 2)
        y[1] = Y[1] + v / (Z[0] - Z[1])
        y[2] = Y[2] - v / (Z[2] - Z[1])
    else:
        y[3] = Y[3] + v / (Z[2] - Z[3])
        y[4] = Y[4] - v / (pp['BackshoreElev'] - Z[3])
    X.assume(X.And(y[1] < Y[0] - 1, y[3] + y[1] - y[2] < Y[0] - 1))
    apart(X, y[2], y[3])
    apart(X, y[2], Y[4], 1e-3)
    through = X.is_true(y[2] < y[3])
    h.run()
    X.check(not h.breach, 'no-breach')
    if not through:
        X.close(h.e[0], h.ends[0], 'start', nan_ok=True)
        for j in range(1, 5):
            X.close(h.y[i][j], y[j], 'untouched', EPS)
    elif chan and k == end and X.is_true(y[2] < Y[4]):
        # into the cliff: what falls from it narrows the channel
        X.close(h.e[0], h.ends[0], 'start')
        X.close(h.y[i][1], y[1], 'kept-cliff', EPS)
        X.check(h.y[i][3] == h.y[i][4], 'kept-cliff')
        X.check(X.And(h.y[i][3] < h.y[i][2], h.y[i][3] >= h.y[i][2] - 0.01), 'kept-cliff')
        fall = (Y[4] - h.y[i][4]) * (pp['BackshoreElev'] - Z[2])
        X.check(h.y[i][2] >= y[2] - 1e-9, 'kept-cliff')
        if X.is_true(h.y[i][2] < y[1] - EPS):
            X.close(fall, (h.y[i][2] - y[2]) * (Z[2] - Z[1]), 'kept-cliff', 1e-3)
    elif chan and k == end:
        # the only one left: the lagoon edge stops just short of the channel
        X.close(h.e[0], h.ends[0], 'start')
        X.close(h.y[i][1], y[1], 'kept-lagoon', EPS)
        X.close(h.y[i][2], y[2], 'kept-lagoon', EPS)
        X.check(X.And(h.y[i][3] < y[2], h.y[i][3] >= y[2] - 0.01), 'kept-lagoon')
        X.close(h.y[i][4], Y[4], 'kept-lagoon')
    else:
        joined(X, w, k, *y[1:])
        X.close(h.e[0], h.ends[0] if not chan else X.const(w.x(k + 1)), 'start', nan_ok=True)
    X.close(h.e[1], h.ends[1], 'end', nan_ok=True)
    # (what was eroded is put down at the end of a closed lagoon)
    same(X, w, [k, e0] if closed else [k])


def seaward(X, side, e0, end, k, closed=False, relic=False):
    """The shoreline retreats into the channel."""
    w = build(X, side, e0, end, closed, {k: {'bar': (1e-3, 6), 'gap': (60, 200)}}, relic=[k] if relic or closed else [])
    h, i = w.h, w.ix(k)
    Y, Z, pp = h.Y[i], h.Z[i], h.pp
    q = X.real('drift', 0, 30)
    w.drift(k, q)
    y0 = Y[0] - q * h.dt / mb.DX / (pp['ClosureDepth'] + Z[0])
    apart(X, y0, Y[1])
    X.assume(Z[2] >= Z[1] + 2)
    through = X.is_true(y0 < Y[1])
    chan = i in h.chan
    h.run()
    X.check(not h.breach, 'no-breach')
    X.close(h.e[0], h.ends[0], 'start', nan_ok=True)
    X.close(h.y[i][3], Y[3], 'untouched')
    X.close(h.y[i][4], Y[4], 'untouched')
    X.close(h.z[i][3], Z[3], 'untouched')
    if not through:
        X.close(h.y[i][0], y0, 'untouched', EPS)
        X.close(h.y[i][1], Y[1], 'untouched')
        X.close(h.e[1], h.ends[1], 'end', nan_ok=True)
    elif chan and k == e0:
        # no channel would be left: it moves landward, its banks exchanging their sediment
        X.close(h.e[1], h.ends[1], 'end')
        X.close(h.y[i][0], y0, 'kept-front', EPS)
        X.check(X.And(h.y[i][1] < y0, h.y[i][1] >= y0 - 0.01), 'kept-front')
        X.close((Y[1] - h.y[i][1]) * (Z[0] - Z[1]), (Y[2] - h.y[i][2]) * (Z[2] - Z[1]), 'kept-back', 1e-3)
    else:
        # filled from the shoreface
        gone(X, h, i)
        X.close((y0 - h.y[i][0]) * (Z[2] + pp['ClosureDepth']), (Y[1] - Y[2]) * (Z[2] - Z[1]), 'filled-shore', 1e-3)
        X.close(h.z[i][0], Z[2], 'filled-crest')
        if chan:
            X.close(h.e[1], X.const(w.x(k) - side * mb.DX / 2), 'end')
        else:
            X.close(h.e[1], h.ends[1], 'end', nan_ok=True)
    same(X, w, [k])


def both(X, side):
    """The lagoon breaks into the first transect of the channel and the sea into the second."""
    w = build(X, side, 3, 5, False, {3: {'gap': (1e-3, 3)}, 4: {'bar': (1e-3, 3), 'gap': (60, 200)}})
    h = w.h
    q = erode(X, w, 3, True, 4)
    d = X.real('drift', 0, 30)
    w.drift(4, d)
    i, j = w.ix(3), w.ix(4)
    Y, Z, V, U = h.Y[i], h.Z[i], h.Y[j], h.Z[j]
    X.assume(Z[0] >= Z[1] + 2)
    X.assume(U[2] >= U[1] + 2)
    v = q / 2 * h.dt / mb.DX
    y1, y2 = Y[1] + v / (Z[0] - Z[1]), Y[2] - v / (Z[2] - Z[1])
    y0 = V[0] - d * h.dt / mb.DX / (h.pp['ClosureDepth'] + U[0])
    X.assume(y1 < Y[0] - 1)
    X.assume(X.And(y2 < Y[3] - EPS, y0 < V[1] - 1.5, Y[3] + y1 - y2 < Y[0] - 1))     # the river adds less than that
    h.run()
    X.check(not h.breach, 'no-breach')
    gone(X, h, i)
    X.close(h.y[i][3], Y[3] + (y1 - y2), 'joined-width')
    X.close(h.e[0], X.const(w.x(4)), 'start')
    X.close(h.e[1], h.ends[1], 'end')
    X.check(X.And(h.y[j][1] < h.y[j][0], h.y[j][1] >= h.y[j][0] - 0.01), 'kept-front')
    X.close((V[1] - h.y[j][1]) * (U[0] - U[1]), (V[2] - h.y[j][2]) * (U[2] - U[1]), 'kept-back', 1e-3)
    same(X, w, [3, 4])


def twice(X, side, lagoon, ks, end):
    """Two transects of the channel erode through on the same side."""
    w = build(X, side, 3, end, False, {k: {'gap': (1e-3, 3), 'bar': (20, 60)} if lagoon else {'gap': (60, 200), 'bar': (1e-3, 3)} for k in ks}, n=9)
    h = w.h
    moved = {}
    for k in ks:
        i = w.ix(k)
        Y, Z = h.Y[i], h.Z[i]
        X.assume(X.And(Z[0] >= Z[1] + 2, Z[2] >= Z[1] + 2))
        if lagoon:
            v = erode(X, w, k, True, 4) / 2 * h.dt / mb.DX
            y1, y2 = Y[1] + v / (Z[0] - Z[1]), Y[2] - v / (Z[2] - Z[1])
            X.assume(X.And(y2 < Y[3] - EPS, Y[3] + y1 - y2 < Y[0] - 1))
            moved[k] = y1, y2
        else:
            q = X.real('drift%d' % k, 0, 30)
            w.drift(k, q)
            y0 = Y[0] - q * h.dt / mb.DX / (h.pp['ClosureDepth'] + Z[0])
            X.assume(y0 < Y[1] - EPS)
            moved[k] = y0
    h.run()
    X.check(not h.breach, 'no-breach')
    for k in ks:
        i = w.ix(k)
        Y, Z = h.Y[i], h.Z[i]
        if lagoon:
            joined(X, w, k, moved[k][0], moved[k][1], Y[3], Y[4])
        else:
            gone(X, h, i)
            X.close((moved[k] - h.y[i][0]) * (Z[2] + h.pp['ClosureDepth']), (Y[1] - Y[2]) * (Z[2] - Z[1]), 'filled-shore', 1e-3)
            X.close(h.z[i][0], Z[2], 'filled-crest')
    X.close(h.e[0], X.const(w.x(max(ks) + 1)) if lagoon else h.ends[0], 'start')
    X.close(h.e[1], h.ends[1] if lagoon else X.const(w.x(min(ks)) - side * mb.DX / 2), 'end')
    same(X, w, ks)


def cliff(X, side, e0, end, k, first):
    """The channel erodes through to the cliff where there is no lagoon: the lagoon is carried on to there along the channel."""
    w = build(X, side, e0, end, False, {k: {'gap': (1e-3, 3)}}, lagoon=list(range(first)))
    h, i = w.h, w.ix(k)
    Y, Z = h.Y[i], h.Z[i]
    X.assume(Z[0] >= Z[1] + 2)
    q = erode(X, w, k, True, 4)
    v = q / 2 * h.dt / mb.DX
    y1, y2 = Y[1] + v / (Z[0] - Z[1]), Y[2] - v / (Z[2] - Z[1])
    X.assume(y1 < Y[0] - 1)
    X.assume(y2 < Y[4] - EPS)
    h.run()
    X.check(not h.breach, 'no-breach')
    X.close(h.e[0], X.const(w.x(k + 1)), 'start')
    X.close(h.e[1], h.ends[1], 'end')
    for t in range(first, k + 1):
        j = w.ix(t)
        gone(X, h, j)
        X.close(h.y[j][3], y1 if t == k else h.Y[j][1], 'lagoon-extended', EPS)
        X.close(h.z[j][3], h.Z[j][1], 'lagoon-extended')
        X.close(h.y[j][4], h.Y[j][4], 'lagoon-extended')
        X.close(h.z[j][0], h.Z[j][0], 'lagoon-extended')
    same(X, w, list(range(first, k + 1)))


def shore(X, side, k, closed):
    """The shoreline retreats into the cliff where there is no lagoon."""
    w = build(X, side, 3, 3, closed, {k: {'beach': (1e-3, 6)}}, lagoon=[0, 1, 2, 3])
    h, i = w.h, w.ix(k)
    Y, Z, pp = h.Y[i], h.Z[i], h.pp
    q = X.real('drift', 0, 30)
    w.drift(k, q)
    y0 = Y[0] - q * h.dt / mb.DX / (pp['ClosureDepth'] + Z[0])
    apart(X, y0, Y[4])
    h.run()
    X.check(not h.breach, 'no-breach')
    if X.is_true(y0 > Y[4]):
        X.close(h.y[i][0], y0, 'untouched', EPS)
        same(X, w)
        return
    y = h.y[i]
    X.check(X.And(y[0] > y[4], y[0] <= y[4] + 0.01), 'cliff-beach')
    X.close(y[3], y[4], 'cliff-beach')
    X.close((Y[4] - y[4]) * (pp['BackshoreElev'] - Z[0]), (y[0] - y0) * (pp['ClosureDepth'] + Z[0]), 'cliff-sediment', 1e-3)
    for j in (0, 3):
        X.close(h.z[i][j], Z[j], 'untouched')
    same(X, w, [k])


def cases(tier):
    c = []
    for side in (1, -1):
        s = 'right-' if side > 0 else 'left-'

        def add(name, fn, **k):
            c.append((s + name, fn, dict(k, side=side)))
        add('extend', extend, e0=2, end=3, n=7)
        add('extend-first', extend, e0=3, end=3, n=6)
        add('extend-edge', extend, e0=2, end=3, n=6, far=True)
        for k in (3, 4):
            add('lagoon-%d' % k, lagoonward, e0=3, end=5, k=k)
        add('lagoon-last', lagoonward, e0=3, end=3, k=3)
        add('lagoon-end', lagoonward, e0=3, end=4, k=4)
        add('cliff-end', lagoonward, e0=3, end=4, k=4, lagoon=[0, 1, 2, 3])
        add('lagoon-relic', lagoonward, e0=5, end=5, k=3)
        add('lagoon-closed', lagoonward, e0=5, end=5, k=4, closed=True)
        for k in (3, 4, 5):
            add('sea-%d' % k, seaward, e0=3, end=5, k=k)
        add('sea-relic', seaward, e0=2, end=2, k=4, relic=True)
        add('sea-closed', seaward, e0=2, end=2, k=4, closed=True)
        add('both', both)
        add('shore', shore, k=5, closed=False)
        add('shore-closed', shore, k=4, closed=True)
        add('lagoon-two', twice, lagoon=True, ks=[3, 4], end=6)
        add('lagoon-apart', twice, lagoon=True, ks=[3, 5], end=6)
        add('sea-two', twice, lagoon=False, ks=[4, 6], end=6)
        add('cliff', cliff, e0=2, end=5, k=3, first=3)
        add('cliff-two', cliff, e0=2, end=5, k=4, first=3)
        if tier != 'quick':
            add('lagoon-2', lagoonward, e0=2, end=5, k=2)
            add('sea-2', seaward, e0=2, end=5, k=2)
            add('sea-straight', seaward, e0=4, end=4, k=4)
            add('cliff-three', cliff, e0=2, end=5, k=4, first=4)
    return c
