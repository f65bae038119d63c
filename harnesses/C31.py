"""Overwash beyond what the lagoon or a channel can hold (mor.updateMorphology)."""
import mor_base as mb
FUNCS = ['hapuamod/mor.py:updateMorphology', 'hapuamod/mor.py:cliffCollision']
BOUNDS = ('6 transects, one (in some cases two neighbours at once, or the end of the domain) with every width, level, overtopping rate and '
          'overwash share symbolic: lagoon or channel from closed (zero width) to 5 m wide, barrier 2 to 200 m wide, up to 3 m3 of '
          'overtopping per metre of shore in the step; with a lagoon, an old channel, a channel in use (open to the left, right, straight '
          'out) or both; lagoon open or closed; one step (thorough: every transect)')
ASSUMPTIONS = ['no longshore transport or bedload in the step; water well below the crest', 'barrier crests 2-9 m, beds -4 to 1 m',
               'volumes 1e-4 or more from those that exactly fill or level']
REQUIRED = ['room', 'lagoon-closed', 'lagoon-crest', 'lagoon-volume', 'channel-closed', 'front', 'back', 'levelled', 'level-crest',
            'volume', 'untouched', 'bed']
BUDGET = {'quick': 80, 'thorough': 600}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 2000, 'name_div': True}
TOL = 1e-4


def setup(X, n, x0, e0, end, closed, focus, relic=(), lagoon=None):
    h = mb.Hapua(X, n, x0)
    h.channel(e0, end, closed)
    has = set(h.chan) | set(relic)
    for i in range(n):
        lag = lagoon is None or i in lagoon or i in h.online
        if i in focus:
            y4 = X.const(-40)
            z = [X.real('z0%d' % i, 2, 9), X.real('z1%d' % i, -4, 1), X.real('z2%d' % i, 2, 9), X.real('z3%d' % i, -4, 1)]
            if i in has:
                y3 = y4 + X.const(20 if lag else 0)
                y2 = y3 + X.real('gap%d' % i, 2, 200)
                y1 = y2 + X.real('out%d' % i, 2.1 if i in h.chan else 0, 5)
                y0 = y1 + X.real('bar%d' % i, 2, 200)
            else:
                y3 = y4 + (X.real('lag%d' % i, 1e-3, 5) if lag else X.const(0))
                y2 = y1 = None
                y0 = y3 + X.real('bar%d' % i, 2, 200)
            h.transect(i, i in has, [y0, y1, y2, y3, y4], z)
            h.cst[i], h.op[i] = X.real('cst%d' % i, 0, 0.05), X.real('op%d' % i, 0, 1)
        else:
            h.transect(i, i in has)
            if not lag:
                h.Y[i][3] = h.Y[i][4]
    h.sections(2, lambda i: X.const(40), lambda i: X.const(8))
    if not closed:
        h.outdep = [X.const(0.5) if i in h.chan else X.nan for i in range(n)]
        h.ends = [X.const(h.S[e0]), X.const((end - x0) * mb.DX)]
    return h


def apart(X, a, b):
    X.assume(X.Or(a >= b + TOL, a <= b - TOL))


def body(X, **k):
    h = setup(X, **k)
    focus = k['focus']
    before = []
    for i in focus:
        Y, Z = h.Y[i], h.Z[i]
        ch = h.has(i)
        back = h.op[i] * h.cst[i] * h.dt            # volume carried to the back, and left on the crest
        top = (1 - h.op[i]) * h.cst[i] * h.dt
        height = Z[0] - (Z[1] if ch else Z[3])
        room = (Y[1] - Y[2] if ch else Y[3] - Y[4]) * height
        apart(X, back, room)
        before.append((i, ch, back, top, height, room))
    h.run()
    for i, ch, back, top, height, room in before:
        Y, Z, y, z = h.Y[i], h.Z[i], h.y[i], h.z[i]
        crest = Y[0] - (Y[1] if ch else Y[3])
        over = X.is_true(back > room)
        X.close(y[4], Y[4], 'untouched')
        X.close(z[3], Z[3], 'bed')
        if not ch:
            X.check(all(X.isnan(v) for v in (y[1], y[2], z[1], z[2])), 'untouched')
            if over:
                X.close(y[3], Y[4], 'lagoon-closed')
                X.check(z[0] > Z[0], 'lagoon-crest')
            else:
                X.close((z[0] - Z[0]) * crest, top, 'room', TOL)
            # all that overtopped is on the crest or in the lagoon
            X.close((z[0] - Z[0]) * crest + (Y[3] - y[3]) * height, top + back, 'lagoon-volume', TOL)
            continue
        X.close(y[3], Y[3], 'untouched')
        if not over:
            X.close((z[0] - Z[0]) * crest, top, 'room', TOL)
            X.close((Y[1] - y[1]) * height, back, 'room', TOL)
            X.close(y[2], Y[2], 'room')
            X.close(z[2], Z[2], 'room')
            continue
        # the excess goes on the lower of the two crests until they are level
        excess = back - room
        front = Z[0] + top / crest
        gap = Y[2] - Y[3]
        low = X.is_true(Z[2] >= front)
        level = (Z[2] - front) * crest if low else (front - Z[2]) * gap
        if X.is_true(excess > level + TOL):
            X.check(all(X.isnan(v) for v in (y[1], y[2], z[1], z[2])), 'levelled')
            w = X.max(y[0] - y[3], crest)
            X.check(z[0] >= X.max(front, Z[2]) - 1e-9, 'level-crest')
            X.close((z[0] - X.max(front, Z[2])) * w, excess - level, 'volume', TOL)
        elif X.is_true(excess < level - TOL):
            X.close(y[1], Y[2], 'channel-closed')
            X.close(y[2], Y[2], 'channel-closed')
            X.close(z[1], Z[1], 'bed')
            if low:
                X.close((z[0] - Z[0]) * crest, top + excess, 'front', TOL)
                X.close(z[2], Z[2], 'front')
            else:
                X.close((z[2] - Z[2]) * gap, excess, 'back', TOL)
                X.close(z[0], front, 'back')
    for i in range(h.n):
        if i not in focus:
            for j in range(4):
                if not X.isnan(h.Z[i][j]):
                    X.close(h.z[i][j], h.Z[i][j], 'untouched')
            for j in (3, 4):
                X.close(h.y[i][j], h.Y[i][j], 'untouched')


def cases(tier):
    c = []

    def add(name, **k):
        c.append((name, body, dict({'n': 6, 'x0': 2}, **k)))
    for f in ([4], [3], [0], [5]) if tier == 'quick' else [[i] for i in range(6)]:
        for cl in (True, False):
            s = '%s-%d' % ('closed' if cl else 'open', f[0])
            add(s + '-lagoon', e0=2, end=2, closed=cl, focus=f)
            add(s + '-relic', e0=2, end=2, closed=cl, focus=f, relic=f)
            add(s + '-relic-cliff', e0=2, end=2, closed=cl, focus=f, relic=f, lagoon=[1, 2])
    add('live-straight', e0=3, end=3, closed=False, focus=[3])
    add('live-right', e0=3, end=4, closed=False, focus=[3])
    add('live-right-last', e0=3, end=4, closed=False, focus=[4])
    add('live-left', e0=2, end=1, closed=False, focus=[1])
    add('online-lagoon', e0=4, end=4, closed=False, focus=[3])
    add('both-lagoon', e0=2, end=2, closed=True, focus=[3, 4])
    add('both-relic', e0=2, end=2, closed=True, focus=[3, 4], relic=[3, 4])
    add('both', e0=2, end=2, closed=False, focus=[3, 4], relic=[4])
    add('both-reversed', e0=2, end=2, closed=False, focus=[3, 4], relic=[3])
    return c
