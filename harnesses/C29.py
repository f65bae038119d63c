"""Animations made from a results file (animate.main)."""
import types
import plot_base
from C16 import State, pars, DX
from C18 import over
import C27
FUNCS = ['hapuamod/animate.py:main', 'hapuamod/animate.py:animateMap', 'hapuamod/animate.py:animateTransect', 'hapuamod/animate.py:animateLongSec',
         'hapuamod/out.py:readTimestep', 'hapuamod/riv.py:assembleChannel', 'hapuamod/visualise.py:modelView', 'hapuamod/visualise.py:updateModelView',
         'hapuamod/visualise.py:newTransectFig', 'hapuamod/visualise.py:updateTransectFig', 'hapuamod/visualise.py:longSection',
         'hapuamod/visualise.py:updateLongSection']
BOUNDS = ('results of 5 transects, 2 river sections and 3 records with the outlet open right, left or straight out or closed in each, every level, depth, '
          'velocity and position of two transects symbolic; map, transect and long section; all records, every other one, or from or to any of them')
ASSUMPTIONS = ['matplotlib draws the lines it is given, and its animation calls the function given for every frame in turn',
               'records hold valid states with positive water depths']
REQUIRED = ['frames', 'map', 'transect', 'long-section', 'saved', 'closed-file', 'when', 'rate']
BUDGET = {'quick': 60, 'thorough': 300}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000, 'name_div': True}
S = [-32., -16., 0., 16., 32.]
LAY = {'right': ([3], 16., 22.), 'left': ([1], -16., -22.), 'straight': ([2], 0., 0.), 'right2': ([3, 4], 16., 32.), 'closed': ([], None, None)}
RW = 20.0


def make(X, tag, kind, sym):
    chan, a, b = LAY[kind]
    closed = kind == 'closed'
    C = X.const
    s = State.__new__(State)
    n, nr = len(S), 2
    s.n, s.nr, s.closed, s.chan, s.kind = n, nr, closed, chan, kind
    R = lambda name, lo, hi: X.real(tag + name, lo, hi)
    s.Y, s.Z = [], []
    for i in range(n):
        v = (lambda name, lo, hi, mid: R('%s%d' % (name, i), lo, hi)) if i in sym else (lambda name, lo, hi, mid: C(mid + i / 8.))
        c = v('cliff', -5, 10, 2)
        l = c + v('lag', 6, 30, 12)
        b2 = l + v('inner', 1, 30, 10) if i in chan else X.nan
        b1 = b2 + v('chan', 6, 20, 8) if i in chan else X.nan
        s.Y.append([(b1 if i in chan else l) + v('spit', 1, 30, 12), b1, b2, l, c])
        s.Z.append([v('crest', 2, 9, 3), v('bed', -3, 0, -1) if i in chan else X.nan, v('top', 2, 9, 3) if i in chan else X.nan, v('lbed', -3, 0, -2)])
    out = lambda name, lo, hi: [R('%s%d' % (name, i), lo, hi) if i in chan else X.nan for i in range(n)]
    s.sl, s.q, s.hs, s.dir = R('sl', -2, 2), C(20), C(1), C(0.25)
    s.lwl, s.lv = [R('lwl%d' % i, 1, 4) for i in range(n)], [R('lv%d' % i, *((-1, -0.1) if i < 2 else (0.1, 1))) for i in range(n)]
    s.od, s.ov = out('od', 0.1, 3), out('ov', -2, 2)
    s.lb, s.ob, s.lst, s.cst, s.op = [C(0)] * n, [C(0)] * n, [C(0.001)] * (n - 1), [C(0)] * n, [C(0)] * n
    s.rz, s.rd, s.rv, s.rb = ([R('%s%d' % (k, i), lo, hi) for i in range(nr)] for k, lo, hi in (('rz', 0, 3), ('rd', 0.1, 4), ('rv', -2, 2), ('rb', 0, 1)))
    s.ends = [X.nan] * 2 if closed else [C(a), C(b)]
    s.ez, s.ew = R('ez', -2, 0), R('ew', 6, 10)
    s.ed, s.ev = ([X.nan] * 2 if closed else [R(k + '0', lo, hi), R(k + '1', lo, hi)] for k, lo, hi in (('ed', 0.1, 3), ('ev', -2, 2)))
    s.eb = C(0)
    return s


def body(X, kinds, view, args, frames, at=None, sym=(1, 3)):
    f = X.files()
    shown, figs = [], {}
    plt = plot_base.Plt()
    stubs = dict(f.stubs(), **X.pd())
    out = X.mod('out', stubs)
    path = f.path('r.nc')
    st = [make(X, 'r%d' % i, k, sym) for i, k in enumerate(kinds)]
    P = {k: X.const(1) for k in pars(X)}
    slope, back, depth, top = X.real('slope', 0.1, 0.5), X.real('back', 2, 30), X.real('depth', 2, 20), X.real('top', 0.5, 1.5)
    P.update(RiverWidth=X.const(RW), MinOutletWidth=X.const(4), MaxOutletElev=X.const(0), SpitWidth=X.const(8), BeachSlope=slope, BackshoreElev=back,
             ClosureDepth=depth, BeachTopElev=top)
    t = [X.const(30600.0 + 3600 * i) for i in range(len(st))]
    out.newOutFile(path, 'model', X.ts(t[0]), X.arr(S), DX, X.arr(list(st[0].rz)), X.arr([X.const(0), X.const(0)]), X.const(0), P)
    for s, u in zip(st, t):
        s.write(X, out, path, X.ts(u))

    class Anim(plot_base.Animation):
        def watch(self, k):
            shown.append(k)
            s = st[k]
            {'map': on_map, 'transect': on_transect, 'long': on_section}[view](X, s, figs, (at, slope, back, depth, top))
            if X.mode == 'real':
                titles = [str(v) for a in self.fig.axes for v in a.titles.values()] + [str(getattr(self.fig, 'title', ''))]
                X.check(any('%d:30' % (8 + k) in v for v in titles), 'when')
            else:
                X.check(True, 'when')
    plot_base.Animation.made[:] = []
    stubs.update(plot_base.stubs(plt, Anim))
    V = X.mod('visualise', stubs)

    def keep(name):
        def g(*a, **k):
            figs[name] = getattr(V, name)(*a, **k)
            return figs[name]
        return g
    stubs['hapuamod.visualise'] = over(V, **{n: keep(n) for n in ('modelView', 'newTransectFig', 'longSection')})
    A = X.mod('animate', stubs)
    k = dict(args)
    if view == 'transect':
        k['TransectX'] = X.const(S[at])
    if view == 'long':
        k['Longsection'] = True
    rate = k['FrameRate'] = X.real('rate', 1, 50)
    A.main(path, 'film.mp4', **k)
    X.check(shown == frames, 'frames')
    made = plot_base.Animation.made
    X.check(len(made) == 1 and made[0].saved == 'film.mp4', 'saved')
    X.close(made[0].interval * rate, 1000, 'rate', 1e-3)
    X.close(made[0].how['fps'], rate, 'rate')
    X.check(all(not g.open for g in plt.figs), 'closed-file')


def same(X, got, want, label, tol=1e-3):
    X.check(len(got) == len(want), label)
    for a, b in zip(got, want):
        X.close(a, b, label, tol, nan_ok=True)


def on_map(X, s, figs, par):
    f = figs['modelView']
    same(X, f['ChannelLine'].y, [r[1] for r in s.Y] + [r[2] for r in s.Y], 'map')
    same(X, f['CliffLine'].y[:2] + f['CliffLine'].y[-2:], [s.Y[i][4] for i in (0, 1, 3, 4)], 'map')
    if s.closed:
        same(X, f['ShoreLine'].y, [r[0] for r in s.Y], 'map')
        same(X, f['LagoonLine'].y, [r[3] for r in s.Y], 'map')
        X.check(all(v != v for v in f['OutletLine'].x), 'map')
        return
    a, b = s.ends[1] - s.ew / 2, s.ends[1] + s.ew / 2
    left, right = [i for i in range(5) if X.is_true(S[i] <= a)], [i for i in range(5) if X.is_true(S[i] >= b)]
    x, y = f['ShoreLine'].x, f['ShoreLine'].y
    same(X, x[:len(left)] + x[len(x) - len(right):], [S[i] for i in left + right], 'map')
    same(X, y[:len(left)] + y[len(y) - len(right):], [s.Y[i][0] for i in left + right], 'map')
    same(X, [x[len(left)], x[len(left) + 2]], [a, b], 'map')


def on_transect(X, s, figs, par):
    at, slope, back, depth, top = par
    h = C27.Hapua.__new__(C27.Hapua)
    h.Y, h.Z, h.wl, h.sea = s.Y, s.Z, s.lwl, s.sl
    h.owl = [s.od[i] + s.Z[i][1] if i in s.chan else X.nan for i in range(5)]
    h.kinds = ['cl' if i in s.chan else 'l' for i in range(5)]
    h.check(Label(X, 'transect'), figs['newTransectFig'], at, slope, back, depth, top)


class Label(object):
    """X with one label for everything."""

    def __init__(self, X, label):
        self.X, self.label = X, label

    def __getattr__(self, n):
        return getattr(self.X, n)

    def check(self, c, label):
        self.X.check(c, self.label)

    def close(self, a, b, label, tol=1e-6, **k):
        self.X.close(a, b, self.label, 1e-3, **k)


def on_section(X, s, figs, par):
    f = figs['longSection']
    L = 'long-section'
    side = [2]
    if s.closed:
        # nothing says which side of the river a closed lagoon drains to: the one drawn
        side = [2, 3, 4] if len(f['VelLine'].y) >= 5 and X.is_true(f['VelLine'].y[3] > 0) else [2, 1, 0]
    lag = [(s.Z[i][3], s.Y[i][3] - s.Y[i][4], s.lwl[i] - s.Z[i][3], X.const(0) if s.closed and i == side[-1] else s.lv[i]) for i in side]   # still water at a closed end
    sec = [(s.rz[i], X.const(RW), s.rd[i], s.rv[i]) for i in range(2)] + lag
    sec += [(s.Z[i][1], s.Y[i][1] - s.Y[i][2], s.od[i], s.ov[i]) for i in s.chan]
    if not s.closed:
        sec.append((s.ez, s.ew, s.ed[0], s.ev[0]))
    n = len(sec)
    for k, j in (('BedLine', 0), ('WidthLine', 1), ('VelLine', 3)):
        same(X, f[k].y[:n], [q[j] for q in sec], L)
    c = n if s.closed else n - 1
    same(X, f['BedLine'].x[:c], [DX * i for i in range(c)], L)
    same(X, f['WaterLine'].y[:n], [q[0] + q[2] for q in sec], L)
    same(X, f['FlowLine'].y[:n], [q[1] * q[2] * q[3] for q in sec], L, 5e-3)


def cases(tier):
    c = []
    for name, kinds in (('open', ['right', 'straight', 'left']), ('closing', ['right2', 'closed', 'right']), ('closed', ['closed', 'left', 'closed'])):
        c.append(('map-' + name, body, {'kinds': kinds, 'view': 'map', 'args': {}, 'frames': [0, 1, 2]}))
        c.append(('transect-' + name, body, {'kinds': kinds, 'view': 'transect', 'args': {}, 'frames': [0, 1, 2], 'at': 3}))
        c.append(('long-' + name, body, {'kinds': kinds, 'view': 'long', 'args': {}, 'frames': [0, 1, 2]}))
    three = ['right', 'left', 'straight']
    for view in ('map', 'transect', 'long'):
        for name, args, frames in (('every-2', {'ResampleInt': 2}, [0, 2]), ('from', {'StartTimestep': 1}, [1, 2]), ('beyond', {'EndTimestep': 9}, [0, 1, 2])):
            c.append(('%s-%s' % (view, name), body, {'kinds': three, 'view': view, 'args': args, 'frames': frames, 'at': 1}))
    return c
