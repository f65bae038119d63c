"""Assembly of river, lagoon and outlet into one channel (riv.assembleChannel)."""
import pars_base
FUNCS = ['hapuamod/riv.py:assembleChannel']
BOUNDS = ('5 transects, river in line with any of the middle ones, 2 river sections; outlet channel starting on any transect and '
          'ending anywhere within the domain; every lagoon and outlet width, bed level and hydraulic state symbolic, in some '
          'cases with missing (NaN) outlet hydraulics (thorough: 7 transects)')
ASSUMPTIONS = ['the lagoon at the river mouth is at least the minimum width', 'the outlet channel starts on a transect',
               'lagoon width >= 0 everywhere']
REQUIRED = ['flags', 'online', 'outlet', 'closed', 'elev', 'width', 'dx', 'area', 'seepage', 'depth', 'velocity',
            'interpolated', 'missing-outlet', 'inputs']
BUDGET = {'quick': 120, 'thorough': 600}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000}
MINW = 2.0
DX = 20.0


def setup(X, n, x0, DX=DX):
    S = [DX * (i - x0) for i in range(n)]
    wl = [X.real('lag%d' % i, 0, 200) for i in range(n)]         # lagoon width
    wo = [X.real('out%d' % i, 0, 100) for i in range(n)]         # outlet channel width
    y4 = [X.const(-300 - i) for i in range(n)]
    rows = [[X.const(50), X.const(0) + wo[i], X.const(0), y4[i] + wl[i], y4[i]] for i in range(n)]
    zb = [X.real('zl%d' % i, -3, 3) for i in range(n)]
    zo = [X.real('zo%d' % i, -3, 3) for i in range(n)]
    zr = [[X.const(4), zo[i], X.const(3), zb[i]] for i in range(n)]
    X.assume(wl[x0] >= MINW)
    for w in wl + wo:
        # keep clear of the thresholds, where rounding decides
        X.assume(X.Or(w >= MINW + 1e-6, w <= MINW - 1e-6))
        X.assume(X.Or(w >= 1e-6, w == 0))
        if DX != 20.0:
            X.assume(w > 3)
    return S, wl, wo, rows, zb, zo, zr


def body(X, n, x0, e0, closed, nans=(), e1lo=None, e1hi=None, exact=None, no_outlet=(), DX=DX):
    r = X.mod('riv')
    S, wl, wo, rows, zb, zo, zr = setup(X, n, x0, DX)
    for i in no_outlet:
        rows[i][1] = rows[i][2] = X.nan
        zr[i][1] = zr[i][2] = X.nan
    ew = X.real('endw', 0, 100)
    X.assume(X.Or(ew >= MINW + 1e-6, ew <= MINW - 1e-6))
    ee = X.real('ende', -3, 3)
    start = S[e0]
    if exact is not None:
        end = X.const(S[exact])
    else:
        end = X.real('end', S[e1lo], S[e1hi], open_lo=True, open_hi=True)
        for s in S:
            X.assume(X.Or(end > s + 1e-3, end < s - 1e-3))
    rv = [X.real('rz0', -3, 5), X.real('rz1', -3, 5)]
    rd = [X.real('rd0', 0.1, 5), X.real('rd1', 0.1, 5)]
    ru = [X.real('ru0', -3, 3), X.real('ru1', -3, 3)]
    lw = [X.real('wl%d' % i, 3.5, 8) for i in range(n)]
    lv = [X.real('lv%d' % i, -3, 3) for i in range(n)]
    od = [X.nan if i in nans else X.real('od%d' % i, 0.1, 5) for i in range(n)]
    ov = [X.nan if i in nans else X.real('ov%d' % i, -3, 3) for i in range(n)]
    ed = [X.real('ed%d' % i, 0.1, 5) for i in range(2)]
    ev = [X.real('ev%d' % i, -3, 3) for i in range(2)]
    pp = pars_base.phys(MinOutletWidth=MINW, RiverWidth=X.real('rw', 1, 200), MaxOutletElev=X.real('maxe', -3, 3))
    Y, Z = X.arr(rows), X.arr(zr)
    hyd = [X.arr(list(a)) for a in (rv, rd, ru, lw, lv, od, ov, ed, ev)]
    given = [X.arr(S), X.arr([start, end])] + hyd
    unchanged = X.keep(*given)
    out = r.assembleChannel(given[0], Y, Z, given[1], X.scalar0(ew), X.scalar0(ee), closed, *(hyd + [DX, pp]))
    unchanged('inputs')
    dx, elev, width, area, leng, dep, vel, online, outix, flag, closed2 = out
    closed2 = X.is_true(closed2)
    online = [int(i) for i in online]
    outix = [int(i) for i in outix]
    flag = [int(i) for i in flag]
    # ---- oracle
    rightwards = exact is None and X.is_true(end > start)
    if exact is not None:
        rightwards = S[exact] > start
    if rightwards:
        chan = [i for i in range(n) if start <= S[i] and X.is_true(end >= S[i])]
    else:
        chan = [i for i in range(n) if start >= S[i] and X.is_true(end <= S[i])][::-1]
    if closed:
        want_closed = True
    else:
        want_closed = X.is_true(ew <= MINW)
        for i in chan:
            want_closed = want_closed or i in no_outlet or X.is_true(wo[i] <= MINW)
    step = 1 if (start > 0 or (start == 0 and online[-1] >= x0)) else -1
    run = [x0]
    while True:
        j = run[-1] + step
        if j < 0 or j >= n or (not want_closed and (step * (S[j] - start) >= 0)):
            break
        if not X.is_true(wl[j] >= MINW):
            want_closed = want_closed or True
            break
        run.append(j)
    X.check(closed2 == want_closed, 'closed')
    X.check(online == run, 'online')
    want_out = [] if want_closed else chan
    X.check(outix == want_out, 'outlet')
    nr, no = 2, len(online)
    want_flag = [0] * nr + [1] * no + ([] if closed2 else [2] * len(chan) + [3, 4])
    X.check(flag == want_flag, 'flags')
    N = len(flag)
    X.check(dx.size == N - 1 and elev.size == N and width.size == N and area.size == N and leng.size == N
            and dep.size == N and vel.size == N, 'flags')
    # bed and width
    we = list(rv) + [zb[i] for i in online] + ([] if closed2 else [zo[i] for i in chan] + [ee, X.min(ee, pp['MaxOutletElev'])])
    ww = [pp['RiverWidth']] * nr + [wl[i] for i in online] + ([] if closed2 else [wo[i] for i in chan] + [ew, ew])
    for i in range(N):
        X.close(elev[i], we[i], 'elev')
        X.close(width[i], ww[i], 'width')
    # lengths
    for i in range(N - 1):
        if not closed2 and i == N - 3:
            X.close(dx[i], DX + X.abs(end - S[chan[-1]]), 'dx', 1e-6)
        else:
            X.close(dx[i], DX, 'dx')
    # storage: every lagoon transect off the channel once, on the nearest end of the online lagoon
    near = [i for i in range(n) if step * (i - x0) < 0]
    far = [i for i in range(n) if step * (i - x0) > 0 and i not in online]
    for k in range(N):
        a, ln = X.const(0), X.const(0)
        if flag[k] == 1:
            ln = ln + DX
        if k == nr:
            a = a + X.sum([wl[i] for i in near]) * DX
            ln = ln + X.sum([X.ite(wl[i] > 0, DX, 0.0) for i in near])
        if k == nr + no - 1:
            a = a + X.sum([wl[i] for i in far]) * DX
            ln = ln + X.sum([X.ite(wl[i] > 0, DX, 0.0) for i in far])
        X.close(area[k], a, 'area', 1e-6)
        X.close(leng[k], ln, 'seepage', 1e-6)
    # hydraulics
    wd = list(rd) + [lw[i] - zb[i] for i in online] + ([] if closed2 else [od[i] for i in chan] + list(ed))
    wv = list(ru) + [lv[i] for i in online] + ([] if closed2 else [ov[i] for i in chan] + list(ev))
    if closed2:
        wv[-1] = X.const(0)
    for i in range(N):
        if X.isnan(wd[i]):
            a, b = i, i
            while X.isnan(wd[a]):
                a -= 1
            while X.isnan(wd[b]):
                b += 1
            w = X.const(i - a) / (b - a)
            d = wd[a] + (wd[b] - wd[a]) * w
            q = wd[a] * wv[a] + (wd[b] * wv[b] - wd[a] * wv[a]) * w
            X.close(dep[i], d, 'interpolated', 1e-6)
            X.close(vel[i] * dep[i], q, 'interpolated', 1e-5)
        else:
            X.close(dep[i], wd[i], 'depth', 1e-6)
            X.close(vel[i], wv[i], 'velocity', 1e-6)
    if not nans and not no_outlet:
        X.close_all(Y, X.arr(rows), 'inputs')
        X.close_all(Z, X.arr(zr), 'inputs')
    if no_outlet:
        X.check(closed2, 'missing-outlet')


def cases(tier):
    c = []
    sets = [(5, 2)] if tier == 'quick' else [(5, 2), (5, 1), (7, 3)]
    for n, x0 in sets:
        for e0 in range(n):
            tag = '%d.%d-e%d' % (n, x0, e0)
            c.append((tag + '-any', body, {'n': n, 'x0': x0, 'e0': e0, 'closed': False, 'e1lo': 0, 'e1hi': n - 1}))
            c.append((tag + '-on', body, {'n': n, 'x0': x0, 'e0': e0, 'closed': False, 'exact': max(1, e0 - 1)}))
            c.append((tag + '-straight', body, {'n': n, 'x0': x0, 'e0': e0, 'closed': False, 'exact': e0}))
            c.append((tag + '-closed', body, {'n': n, 'x0': x0, 'e0': e0, 'closed': True, 'exact': e0}))
        c.append(('%d.%d-nan' % (n, x0), body, {'n': n, 'x0': x0, 'e0': 1, 'closed': False, 'exact': 3, 'nans': (2, 3)}))
        c.append(('%d.%d-nan1' % (n, x0), body, {'n': n, 'x0': x0, 'e0': 3, 'closed': False, 'exact': 3, 'nans': (3,)}))
        c.append(('%d.%d-gap' % (n, x0), body, {'n': n, 'x0': x0, 'e0': 1, 'closed': False, 'exact': 3, 'no_outlet': (2,)}))
    # a spacing whose multiples are rounded
    for x0, e0, e in ((1, 2, 4), (3, 2, 0)):
        c.append(('rounded-%d' % e, body, {'n': 5, 'x0': x0, 'e0': e0, 'closed': False, 'exact': e, 'DX': 15.2}))
    return c
