"""Hydraulic state and bedload stored back on the map (riv.storeHydraulics, storeBedload, assembleChannel)."""
import pars_base
FUNCS = ['hapuamod/riv.py:storeHydraulics', 'hapuamod/riv.py:storeBedload', 'hapuamod/riv.py:assembleChannel']
BOUNDS = ('5 transects, river in line with any of the middle ones, 1 to 2 river sections; outlet starting on any transect and '
          'ending in any reach of the domain (thorough: 7 transects); lagoon closed at either end or part-way; every bed level, '
          'depth, velocity, width and bedload rate symbolic')
ASSUMPTIONS = ['lagoon and outlet widths above the minimum except where the lagoon is closed part-way']
REQUIRED = ['lagoon-level', 'lagoon-offline', 'velocity', 'outlet', 'outlet-end', 'bedload', 'inputs', 'round-trip', 'nothing-online']
BUDGET = {'quick': 40, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000}
DX = 20.0


def body(X, n, x0, e0, end, closed, nr, narrow=None):
    r = X.mod('riv')
    S = [DX * (i - x0) for i in range(n)]
    wl = [X.real('lag%d' % i, 3, 200) for i in range(n)]
    wo = [X.real('out%d' % i, 3, 100) for i in range(n)]
    if narrow is not None:
        wl[narrow] = X.real('narrow', 0, 1)
    y4 = [X.const(-300 - i) for i in range(n)]
    rows = [[X.const(50), wo[i], X.const(0), y4[i] + wl[i], y4[i]] for i in range(n)]
    zb = [X.real('zl%d' % i, -3, 3) for i in range(n)]
    zo = [X.real('zo%d' % i, -3, 3) for i in range(n)]
    Y, Z = X.arr(rows), X.arr([[X.const(4), zo[i], X.const(3), zb[i]] for i in range(n)])
    e1 = S[end] if not isinstance(end, float) else end * DX
    ends = X.arr([S[e0], e1])
    pp = pars_base.phys(MinOutletWidth=2.0, RiverWidth=60.0, MaxOutletElev=-2.0)
    nan = X.arr([X.nan] * n)
    nan2 = X.arr([X.nan] * 2)
    rz = X.arr([X.real('rz%d' % i, -3, 5) for i in range(nr)])
    rd0, rv0 = X.arr([X.const(1)] * nr), X.arr([X.const(1)] * nr)

    def assemble(cl, rd, rv, lw, lv, od, ov, ed, ev):
        return r.assembleChannel(X.arr(S), Y, Z, ends, X.scalar0(X.const(10)), X.scalar0(X.const(-1)), cl, rz, rd, rv, lw, lv,
                                 od, ov, ed, ev, DX, pp)
    out = assemble(closed, rd0, rv0, X.arr([X.const(4)] * n), X.arr([X.const(1)] * n), nan, nan, nan2, nan2)
    cdx, celev, cwid, _, _, _, _, online, oix, flag, cl = out
    cl = X.is_true(cl)
    online, oix = [int(i) for i in online], [int(i) for i in oix]
    N = len(flag)
    d = [X.real('d%d' % i, 0.1, 6) for i in range(N)]
    v = [X.real('v%d' % i, -4, 4) for i in range(N)]
    D, V = X.arr(list(d)), X.arr(list(v))
    LZ = X.arr(list(zb))
    unchanged = X.keep(D, V, LZ)
    lw, lv, od, ov, ed, ev = r.storeHydraulics(D, V, out[7], out[8], flag, LZ, cl)
    no = len(online)
    lo, hi = min(online), max(online)
    for i in range(n):
        if i in online:
            k = nr + online.index(i)
            X.close(lw[i], zb[i] + d[k], 'lagoon-level')
            X.close(lv[i], v[k], 'velocity')
        else:
            j = lo if i < lo else hi
            X.close(lw[i], zb[j] + d[nr + online.index(j)], 'lagoon-offline')
            X.check(X.isnan(lv[i]), 'nothing-online')
        if i in oix and not cl:
            k = nr + no + oix.index(i)
            X.close(od[i], d[k], 'outlet')
            X.close(ov[i], v[k], 'outlet')
        else:
            X.check(X.isnan(od[i]) and X.isnan(ov[i]), 'nothing-online')
    X.check(ed.size == 2 and ev.size == 2, 'outlet-end')
    for k in range(2):
        if cl:
            X.check(X.isnan(ed[k]) and X.isnan(ev[k]), 'outlet-end')
        else:
            X.close(ed[k], d[N - 2 + k], 'outlet-end')
            X.close(ev[k], v[N - 2 + k], 'outlet-end')
    unchanged('inputs')
    # nothing moves when the unchanged map is assembled again
    out2 = assemble(cl, D[:nr], V[:nr], lw, lv, od, ov, ed, ev)
    X.check([int(i) for i in out2[7]] == online and [int(i) for i in out2[9]] == [int(i) for i in flag], 'round-trip')
    want_v = list(v)
    if cl:
        want_v[-1] = X.const(0)
    for k in range(N):
        X.close(out2[5][k], d[k], 'round-trip', 1e-6)
        X.close(out2[6][k], want_v[k], 'round-trip', 1e-6)
    # bedload: one rate per reach, filed under the section it leaves
    q = [X.real('q%d' % i, -1, 1) for i in range(N - 1)]
    lb, ob, eb = r.storeBedload(X.arr(list(q)), n, out[7], out[8], flag, cl)
    for i in range(n):
        if i in online and not (cl and i == online[-1]):
            X.close(lb[i], q[nr + online.index(i)], 'bedload')
        else:
            X.close(lb[i], X.const(0), 'bedload')
        if i in oix and not cl:
            X.close(ob[i], q[nr + no + oix.index(i)], 'bedload')
        else:
            X.close(ob[i], X.const(0), 'bedload')
    if cl:
        X.close(X.const(0) + eb, X.const(0), 'bedload')
    else:
        X.close(eb[0], q[-1], 'bedload')


def cases(tier):
    c = []
    for n, x0 in ([(5, 2), (5, 1), (5, 3)] if tier == 'quick' else [(5, 2), (5, 1), (5, 3), (7, 3), (7, 1), (7, 5)]):
        for e0 in range(n):
            for end in (0, n - 1, e0):
                c.append(('%d.%d-e%d-%d' % (n, x0, e0, end), body, {'n': n, 'x0': x0, 'e0': e0, 'end': end, 'closed': False, 'nr': 2}))
            c.append(('%d.%d-e%d-mid' % (n, x0, e0), body,
                      {'n': n, 'x0': x0, 'e0': e0, 'end': e0 - x0 + 0.5, 'closed': False, 'nr': 1}))
            c.append(('%d.%d-e%d-closed' % (n, x0, e0), body, {'n': n, 'x0': x0, 'e0': e0, 'end': e0, 'closed': True, 'nr': 1}))
            for nw in range(n):
                if nw != x0:
                    c.append(('%d.%d-e%d-shut%d' % (n, x0, e0, nw), body,
                              {'n': n, 'x0': x0, 'e0': e0, 'end': e0, 'closed': nw % 2 == 0, 'nr': 2, 'narrow': nw}))
    return c
