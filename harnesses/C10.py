"""Fluvial sediment balance of the morphological update (mor.updateMorphology), without waves."""
import mor_base as mb
FUNCS = ["hapuamod/mor.py:updateMorphology", "hapuamod/mor.py:cliffCollision"]
BOUNDS = ('6 transects, river in line with either middle one, 2 or 3 river sections; lagoon closed, or outlet running left, right or '
          'straight out, ending on or between transects; every bedload rate, section width and depth, bed and barrier level, '
          'channel and lagoon width symbolic; one time step (thorough: 8 transects)')
ASSUMPTIONS = ['no wave-driven transport in the step (C11 has it)', 'the timestep limiter is not reached (C12)',
               'channels and barriers stay at least 10 m wide, so no breach, truncation or closure in the step (C13, C14)',
               'spreading of outlet sediment: spread distance a multiple of the transect spacing, away from the domain ends']
REQUIRED = ['river', 'lagoon-volume', 'lagoon-banks', 'outlet-volume', 'outlet-banks', 'end-volume', 'end-move', 'shore-total',
            'shore-shape', 'bed-first', 'untouched', 'breach']
BUDGET = {'quick': 60, 'thorough': 400}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 1000, 'name_div': True}


def body(X, n, x0, e0, end, closed, nr, relic=()):
    h = mb.Hapua(X, n, x0)
    h.channel(e0, end, closed)
    has = set(h.chan) | set(relic)
    for i in range(n):
        y4 = X.real('cliff%d' % i, -50, 50)
        y3 = y4 + X.real('lag%d' % i, 10, 200)
        y2 = y3 + X.real('gap%d' % i, 10, 200)
        y1 = y2 + X.real('out%d' % i, 10, 200)
        y0 = y1 + X.real('bar%d' % i, 10, 200)
        h.transect(i, i in has, [y0, y1, y2, y3, y4],
                   [X.real('z0%d' % i, 2, 9), X.real('z1%d' % i, -4, 1), X.real('z2%d' % i, 2, 9), X.real('z3%d' % i, -4, 1)])
    h.sections(nr, lambda i: X.real('w%d' % i, 1, 300), lambda i: X.real('d%d' % i, 0.1, 8))
    if not closed:
        h.endw, h.ende = X.real('endw', 4, 200), X.real('ende', -4, 1)
        h.outdep = [X.real('od%d' % i, 0, 1) if i in h.chan else X.nan for i in range(n)]
        h.ends = [X.const(h.S[e0]), X.const((end - x0) * mb.DX)]
        if end != int(end):
            # anywhere well inside the reach
            h.ends[1] = h.S[int(end)] + X.real('endx', 3, mb.DX - 3)
    h.lagwl = [X.real('wl%d' % i, -1, 1) for i in range(n)]
    for k in range(1, h.N):
        X.assume(X.Or(h.wid[k] >= 16 * h.dep[k] + 1e-3, h.wid[k] <= 16 * h.dep[k] - 1e-3))
    h.bed = [X.real('q%d' % k, -0.5, 0.5) for k in range(h.N - 1)]
    h.run()
    pp, dx, dt = h.pp, mb.DX, h.dt
    X.check(not h.breach, 'breach')

    def wide(k):
        return h.wid[k] > 16 * h.dep[k]
    moved = set()
    for k in range(1, h.N if closed else h.N - 1):
        v = h.dvol(k) * dt
        f = h.flag[k]
        if f == 0:
            X.close((h.r[k] - h.riv[k]) * pp['RiverWidth'] * dx, v, 'river')
            continue
        if f == 1:
            i = h.online[k - nr]
            bank = h.Z[i][2] if h.has(i) else h.Z[i][0]
            dz, wid0 = h.z[i][3] - h.Z[i][3], h.Y[i][3] - h.Y[i][4]
            front = (h.y[i][3] - h.Y[i][3]) * (bank - h.Z[i][3]) * dx
            back = (h.Y[i][4] - h.y[i][4]) * (pp['BackshoreElev'] - h.Z[i][3]) * dx
            tag = 'lagoon'
            moved |= {(i, 3), (i, 4), (i, 'z3')}
        elif f == 2:
            i = h.chan[k - nr - len(h.online)]
            dz, wid0 = h.z[i][1] - h.Z[i][1], h.Y[i][1] - h.Y[i][2]
            front = (h.y[i][1] - h.Y[i][1]) * (h.Z[i][0] - h.Z[i][1]) * dx
            back = (h.Y[i][2] - h.y[i][2]) * (h.Z[i][2] - h.Z[i][1]) * dx
            tag = 'outlet'
            moved |= {(i, 1), (i, 2), (i, 'z1')}
        else:
            dz, wid0 = h.el - h.ende, h.endw
            front = (h.w - h.endw) * (pp['BeachTopElev'] - h.ende) * pp['SpitWidth']
            back = X.const(0)
            tag = 'end'
        X.close(dz * wid0 * dx - front - back, v, tag + '-volume', 1e-5)
        bedonly = X.Or(v >= 0, wide(k))
        X.check(X.Implies(bedonly, X.And(X.abs(front) <= 1e-7, X.abs(back) <= 1e-7)), 'bed-first')
        X.check(X.Implies(X.Not(bedonly), X.abs(dz) <= 1e-7), 'bed-first')
        if tag != 'end':
            X.close(front, back, tag + '-banks', 1e-5)
        else:
            # an eroding end bank drags the outlet end along with it
            move = h.e[1] - h.ends[1]
            sgn = 1 if end > e0 else -1 if end < e0 else 0
            if end == int(end) and end == e0:
                X.close(move, X.const(0), 'end-move')
            else:
                want = h.ends[1] + sgn * (h.w - h.endw) / 2 * pp['OutletBankEroFac']
                X.close(h.e[1], X.max(X.min(want, X.const(h.S[-2])), X.const(h.S[1])), 'end-move')
    X.close(h.r[0], h.riv[0], 'river')
    # everything else stays put, except the shore line
    for i in range(n):
        for j in range(1, 5):
            if (i, j) not in moved:
                X.close(h.y[i][j], h.Y[i][j], 'untouched', nan_ok=True)
        for j in range(4):
            if (i, 'z%d' % j) not in moved:
                X.close(h.z[i][j], h.Z[i][j], 'untouched', nan_ok=True)
    ero = -pp['ShorelineErosionRate'] / (365.25 * 86400) * dt
    for i in (0, n - 1):
        X.close(h.y[i][0] - h.Y[i][0], X.const(ero), 'untouched', 1e-9)
    vol = [(h.y[i][0] - h.Y[i][0]) * (pp['ClosureDepth'] + h.Z[i][0]) * dx for i in range(n)]
    if closed:
        for i in range(1, n - 1):
            X.close(vol[i], X.const(0), 'untouched')
        X.close(h.w, h.endw, 'untouched')
        X.close(h.el, h.ende, 'untouched')
        for k in range(2):
            X.close(h.e[k], h.ends[k], 'untouched', nan_ok=True)
        return
    X.close(h.e[0], h.ends[0], 'untouched')
    supply = h.bed[-1] * dt
    L = pp['OutletSedSpreadDist']
    inner = end - L / dx >= 0 and end + L / dx <= n - 1
    if inner:
        X.close(X.sum(vol[1:-1]), supply, 'shore-total', 1e-5)
    for i in range(1, n - 1):
        dist = X.abs(h.S[i] - h.ends[1])
        X.close(vol[i], supply * X.max(1 - dist / L, X.const(0)) * dx / L, 'shore-shape', 1e-5)


def cases(tier):
    c = []
    n = 6 if tier == 'quick' else 8
    for x0 in (2, 3) if tier == 'quick' else (2, 3, 5):
        for e0 in sorted({x0, x0 + 1, x0 - 1}):
            for end in (e0, e0 + 1, e0 - 1, e0 + 1.5, e0 - 1.5, 2, 3):
                if not 1 <= end <= n - 2:
                    continue
                c.append(('%d.%d-e%d-%s' % (n, x0, e0, end), body, {'n': n, 'x0': x0, 'e0': e0, 'end': end, 'closed': False,
                          'nr': 2 + len(c) % 2, 'relic': (0, 5) if len(c) % 2 else (x0,)}))
            c.append(('%d.%d-e%d-closed' % (n, x0, e0), body,
                      {'n': n, 'x0': x0, 'e0': e0, 'end': e0, 'closed': True, 'nr': 2, 'relic': (x0, 4)}))
    seen, r = set(), []
    for x in c:
        if x[0] not in seen:
            seen.add(x[0])
            r.append(x)
    return r
