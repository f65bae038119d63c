"""Wave-driven sediment balance of the morphological update (mor.updateMorphology)."""
import mor_base as mb
FUNCS = ["hapuamod/mor.py:updateMorphology", "hapuamod/mor.py:cliffCollision"]
BOUNDS = ('6 transects, river in line with either middle one; lagoon closed, or outlet running left, right or straight out and ending '
          'anywhere inside any reach of the domain; every longshore transport (either sign), overtopping rate, overwash share, '
          'barrier height and width symbolic; one time step (thorough: 9 transects)')
ASSUMPTIONS = ['no bedload in the step (C10 has it)', 'the timestep limiter is not reached (C12)',
               'barriers and channels at least 10 m wide, so no breach, truncation or closure in the step (C13, C14)']
REQUIRED = ['shore', 'downdrift', 'ends', 'crest', 'back', 'overtopping-balance', 'outlet-narrowing', 'outlet-migration',
            'total', 'untouched', 'breach']
BUDGET = {'quick': 60, 'thorough': 400}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 1000, 'name_div': True}


def body(X, n, x0, e0, end, closed, relic=()):
    h = mb.Hapua(X, n, x0)
    h.channel(e0, end, closed)
    has = set(h.chan) | set(relic)
    for i in range(n):
        y4 = X.real('cliff%d' % i, -50, 50)
        y3 = y4 + X.real('lag%d' % i, 10, 200)
        y2 = y3 + X.real('gap%d' % i, 10, 200)
        y1 = y2 + X.real('out%d' % i, 10, 200)
        y0 = y1 + X.real('bar%d' % i, 10, 200)
        h.transect(i, i in has, [y0, y1, y2, y3, y4],
                   [X.real('z0%d' % i, 2, 9), X.real('z1%d' % i, -4, 1), X.real('z2%d' % i, 2, 9), X.real('z3%d' % i, -4, 1)])
    h.sections(2, lambda i: X.const(60), lambda i: X.const(2))
    if not closed:
        h.endw, h.ende = X.real('endw', 4, 200), X.real('ende', -4, 1)
        h.outdep = [X.real('od%d' % i, 0, 1) if i in h.chan else X.nan for i in range(n)]
        h.ends = [X.const(h.S[e0]), X.const((end - x0) * mb.DX)]
        if end != int(end):
            h.ends[1] = h.S[int(end)] + X.real('endx', 3, mb.DX - 3)
    h.lst = [X.real('lst%d' % i, -0.5, 0.5) for i in range(n - 1)]
    h.cst = [X.real('cst%d' % i, 0, 0.05) for i in range(n)]
    h.op = [X.real('op%d' % i, 0, 1) for i in range(n)]
    h.run()
    pp, dx, dt = h.pp, mb.DX, h.dt
    X.check(not h.breach, 'breach')
    vol = [(h.y[i][0] - h.Y[i][0]) * (pp['ClosureDepth'] + h.Z[i][0]) * dx for i in range(n)]
    for i in range(n):
        over = h.cst[i] * dx * dt
        if i in has:
            front, b, zb = h.Y[i][0] - h.Y[i][1], 1, h.Z[i][1]
        else:
            front, b, zb = h.Y[i][0] - h.Y[i][3], 3, h.Z[i][3]
        crest = (h.z[i][0] - h.Z[i][0]) * front * dx
        back = (h.Y[i][b] - h.y[i][b]) * (h.Z[i][0] - zb) * dx
        X.close(crest, (1 - h.op[i]) * over, 'crest', 1e-5)
        X.close(back, h.op[i] * over, 'back', 1e-5)
        X.close(crest + back, over, 'overtopping-balance', 1e-5)
        for j in range(1, 5):
            if j != b:
                X.close(h.y[i][j], h.Y[i][j], 'untouched', nan_ok=True)
        for j in range(1, 4):
            X.close(h.z[i][j], h.Z[i][j], 'untouched', nan_ok=True)
    for i in (0, n - 1):
        X.close(h.y[i][0] - h.Y[i][0], X.const(-pp['ShorelineErosionRate'] / (365.25 * 86400) * dt), 'ends', 1e-9)
    rb = None
    if not closed:
        rb = int(end) + 1         # first transect right of the outlet end
        q = h.lst[rb - 1]
        right = q > 0
    for i in range(1, n - 1):
        want = (h.lst[i - 1] - h.lst[i]) * dt - h.cst[i] * dx * dt
        if i == rb:
            want = want - X.max(q, X.const(0)) * dt
            X.close(vol[i], want, 'downdrift', 1e-5)
        elif rb is not None and i == rb - 1:
            want = want + X.min(q, X.const(0)) * dt
            X.close(vol[i], want, 'downdrift', 1e-5)
        else:
            X.close(vol[i], want, 'shore', 1e-5)
    for k in range(h.nr):
        X.close(h.r[k], h.riv[k], 'untouched')
    if closed:
        X.close(h.w, h.endw, 'untouched')
        trapped = X.const(0)
    else:
        X.close(h.el, h.ende, 'untouched')
        trapped = (h.endw - h.w) * (pp['BeachTopElev'] - h.ende) * pp['SpitWidth']
        X.close(trapped, X.abs(q) * dt, 'outlet-narrowing', 1e-5)
        want = h.ends[1] + X.ite(right, 1, -1) * (h.endw - h.w) / 2
        X.close(h.e[1], X.max(X.min(want, X.const(h.S[-2])), X.const(h.S[1])), 'outlet-migration')
        X.close(h.e[0], h.ends[0], 'untouched')
    # what leaves the shore in front of the domain goes past its ends, onto the outlet or over the barrier
    if rb is None or 2 <= rb <= n - 2:
        over = X.sum([h.cst[i] * dx * dt for i in range(1, n - 1)])
        X.close(X.sum(vol[1:-1]) + trapped + over, (h.lst[0] - h.lst[-1]) * dt, 'total', 1e-4)


def cases(tier):
    c, seen = [], set()
    n = 6 if tier == 'quick' else 9
    for x0 in (2, 3) if tier == 'quick' else (2, 4, 6):
        for e0 in (x0, x0 + 1, x0 - 1):
            for end in (e0, e0 + 1, e0 + 0.5, e0 - 0.5, e0 - 1, e0 + 1.5, e0 - 1.5, 1, n - 2):
                if 1 <= end <= n - 2 and (x0, e0, end) not in seen:
                    seen.add((x0, e0, end))
                    c.append(('%d.%d-e%d-%s' % (n, x0, e0, end), body, {'n': n, 'x0': x0, 'e0': e0, 'end': end, 'closed': False,
                              'relic': (0, n - 1) if len(c) % 2 else (x0,)}))
            c.append(('%d.%d-e%d-closed' % (n, x0, e0), body,
                      {'n': n, 'x0': x0, 'e0': e0, 'end': e0, 'closed': True, 'relic': (x0, n - 2)}))
    return c
