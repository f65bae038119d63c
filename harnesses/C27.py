"""What the long section, the transect view and the boundary condition plot show (visualise.py)."""
import datetime
import plot_base
FUNCS = ['hapuamod/visualise.py:longSection', 'hapuamod/visualise.py:updateLongSection', 'hapuamod/visualise.py:newTransectFig',
         'hapuamod/visualise.py:updateTransectFig', 'hapuamod/visualise.py:bdyCndFig', 'hapuamod/visualise.py:updateBdyCndFig']
BOUNDS = ('figures made for one state and updated to another, every value of both symbolic: long sections of 2 to 4 cross-sections (the number may '
          'change), with and without bedload; 3 transects with (in use or abandoned) and without an outlet channel, and with and without a lagoon, any transect asked for; '
          'series of 1 to 3 times')
ASSUMPTIONS = ['matplotlib draws the lines it is given', 'water depths positive in the long section', 'positions within 900 m of the shore origin']
REQUIRED = ['long-section', 'froude', 'flow-axis', 'ground', 'water', 'filled', 'nearest', 'series', 'time-axis', 'titles', 'redrawn', 'inputs', 'view']
BUDGET = {'quick': 40, 'thorough': 200}
OPTS = {'prop_ms': 3000, 'deep_ms': 5000, 'feas_ms': 1000, 'name_div': True}
WHEN = datetime.datetime(2021, 2, 13, 16, 45)
G = 9.81


def same(X, got, want, label, tol=1e-6):
    X.check(len(got) == len(want), label)
    for a, b in zip(got, want):
        X.close(a, b, label, tol, nan_ok=True)


def lines(points):
    """The lines of a line broken where it has no value."""
    out = [[]]
    for p in points:
        if any(isinstance(v, float) and v != v for v in p):
            out.append([])
        else:
            out[-1].append(p)
    return [p for p in out if p]


def visual(X):
    plt = plot_base.Plt()
    return plt, X.mod('visualise', dict(plot_base.stubs(plt), **X.pd()))


class Section(object):
    def __init__(self, X, tag, n):
        R = lambda s, i, lo, hi: X.real('%s%s%d' % (tag, s, i), lo, hi)
        self.dx = [R('dx', i, 1, 100) for i in range(n - 1)]
        self.z = [R('z', i, -5, 10) for i in range(n)]
        self.b = [R('b', i, 1, 200) for i in range(n)]
        self.h = [R('h', i, 0.01, 8) for i in range(n)]
        self.v = [R('v', i, -5, 5) for i in range(n)]
        self.q = [R('q', i, -0.1, 0.1) for i in range(n - 1)]
        self.given = [X.arr(list(a)) for a in (self.dx, self.z, self.b, self.h, self.v)]
        self.bedload = X.arr(list(self.q))

    def check(self, X, fig, bed):
        L = 'long-section'
        d = [X.const(0)]
        for e in self.dx:
            d.append(d[-1] + e)
        mid = [(a + b) / 2 for a, b in zip(d, d[1:])]
        n = len(d)
        wl = [self.z[i] + self.h[i] for i in range(n)]
        flow = [self.b[i] * self.h[i] * self.v[i] for i in range(n)]
        for k in ('BedLine', 'WaterLine', 'WidthLine', 'FlowLine', 'VelLine', 'FrLine'):
            same(X, fig[k].x, d, L)
        same(X, fig['EnergyLine'].x, mid, L)
        same(X, fig['BedLine'].y, self.z, L)
        same(X, fig['WaterLine'].y, wl, L)
        same(X, fig['WidthLine'].y, self.b, L)
        same(X, fig['VelLine'].y, self.v, L)
        same(X, fig['FlowLine'].y, flow, L)
        same(X, fig['EnergyLine'].y, [(wl[i] + wl[i + 1]) / 2 + ((self.v[i] + self.v[i + 1]) / 2) * ((self.v[i] + self.v[i + 1]) / 2) / (2 * G)
                                      for i in range(n - 1)], L)
        for i in range(n):
            fr = fig['FrLine'].y[i]
            X.check(fr >= 0, 'froude')
            X.close(fr * fr * (G * self.h[i]), self.v[i] * self.v[i], 'froude', 1e-5)
        lo, hi = fig['FlowAx'].lim['y']
        for f in flow:
            X.check(X.And(lo <= f, f <= hi), 'flow-axis')
        if bed:
            same(X, fig['QsLine'].x, mid, L)
            same(X, fig['QsLine'].y, [3600 * q for q in self.q], L, 1e-4)
            lo, hi = fig['QsAx'].lim['y']
            for q in self.q:
                X.check(3600 * q <= hi, 'flow-axis')
        # what was given is left as it was
        for a, w in zip(self.given + [self.bedload], (self.dx, self.z, self.b, self.h, self.v, self.q)):
            same(X, list(a), w, 'inputs')


def longsec(X, n, m, bed):
    plt, V = visual(X)
    a, b = Section(X, 'a', n), Section(X, 'b', m)
    more = (a.bedload,) if bed else ()
    view = plot_base.area(X)
    fig = V.longSection(*(a.given + list(more)), AreaOfInterest=tuple(view))
    plot_base.in_view(X, fig['ElevAx'], view, 'view')
    a.check(X, fig, bed)
    lo, hi = fig['WidthAx'].lim['y']
    for width in a.b:
        X.check(X.And(lo <= width, width <= hi), 'flow-axis')
    drawn = fig['RivFig'].drawn
    V.updateLongSection(fig, *(b.given + [b.bedload if bed else None, WHEN]))
    b.check(X, fig, bed)
    X.check(fig['RivFig'].drawn > drawn, 'redrawn')
    X.check('16:45' in fig['RivFig'].title and '13' in fig['RivFig'].title, 'titles')


class Hapua(object):
    """Transects with (c) or without a channel, which may be abandoned (r: no water in it), and with (l) or without a lagoon."""

    def __init__(self, X, tag, kinds):
        self.Y, self.Z, self.wl, self.owl = [], [], [], []
        nan = X.nan
        for i, k in enumerate(kinds):
            dry, k = 'r' in k, k.replace('r', 'c')
            R = lambda s, lo, hi: X.real('%s%s%d' % (tag, s, i), lo, hi)
            g = lambda s: R(s, 0.5, 100)
            y4 = R('y4', -300, 200)
            y3 = y4 + g('lag') if 'l' in k else y4
            y2 = y3 + g('in') if 'c' in k else nan
            y1 = y2 + g('ch') if 'c' in k else nan
            y0 = (y1 if 'c' in k else y3) + g('out')
            self.Y.append([y0, y1, y2, y3, y4])
            self.Z.append([R('z0', 1, 9), R('z1', -4, 1) if 'c' in k else nan, R('z2', 1, 9) if 'c' in k else nan, R('z3', -4, 1)])
            self.wl.append(R('wl', -4, 9))
            self.owl.append(R('owl', -4, 9) if 'c' in k and not dry else nan)
        self.sea = R('sea', -3, 3)
        self.given = [X.arr([list(r) for r in self.Y]), X.arr([list(r) for r in self.Z]), X.arr(list(self.wl)), X.arr(list(self.owl)), self.sea]
        self.kinds = [k.replace('r', 'c') for k in kinds]

    def check(self, X, fig, i, slope, back, depth, top):
        y, z, k = self.Y[i], self.Z[i], self.kinds[i]
        ground = [(y[0] + (top + depth) / slope, -depth), (y[0], top), (y[0], z[0])]
        water = [(y[0], self.sea)]
        if 'c' in k:
            ground += [(y[1], z[0]), (y[1], z[1]), (y[2], z[1]), (y[2], z[2]), (y[3], z[2])]
            water += [(y[1], self.owl[i]), (y[2], self.owl[i])]
        else:
            ground += [(y[3], z[0])]
        if 'l' in k:
            ground += [(y[3], z[3]), (y[4], z[3])]
            water += [(y[3], self.wl[i]), (y[4], self.wl[i])]
        ground += [(y[4], back)]
        g, w = fig['GroundLine'], fig['WaterLine']
        same(X, g.x[1:-1], [p[0] for p in ground], 'ground', 1e-5)
        same(X, g.y[1:-1], [p[1] for p in ground], 'ground', 1e-5)
        X.check(X.And(g.x[0] >= ground[0][0], g.x[-1] <= y[4]), 'ground')
        same(X, [g.y[0], g.y[-1]], [-depth, back], 'ground')
        got, want = lines(zip(w.x[1:], w.y[1:])), lines(water)
        X.check(len(got) == len(want), 'water')
        for p, q in zip(got, want):
            same(X, [u[0] for u in p], [u[0] for u in q], 'water')
            same(X, [u[1] for u in p], [u[1] for u in q], 'water')
        X.check(w.x[0] >= ground[0][0], 'water')
        same(X, w.y[:1], [self.sea], 'water')
        for line, fill in ((g, fig['GroundFill']), (w, fig['WaterFill'])):
            n = len(line.x)
            same(X, fill.x[:n], line.x, 'filled')
            same(X, fill.y[:n], line.y, 'filled')
            # closed far below the bed, under the whole line
            X.check(len(fill.x) >= n + 2, 'filled')
            same(X, fill.x[n:n + 2], [line.x[-1], line.x[0]], 'filled')
            for v in fill.y[n:n + 2]:
                X.check(v <= -50, 'filled')


def transect(X, kinds, ix):
    plt, V = visual(X)
    S = [-16.0, 0.0, 16.0]
    at = X.real('at', -16, 16)
    dist = [X.abs(at - s) for s in S]
    for d in dist[:ix]:
        X.assume(d >= dist[ix] + 1e-3)
    for d in dist[ix + 1:]:
        X.assume(d >= dist[ix] + 1e-3)
    a, b = Hapua(X, 'a', kinds), Hapua(X, 'b', kinds[::-1])
    slope, back, depth, top = X.real('slope', 0.1, 0.5), X.real('back', 2, 30), X.real('depth', 2, 20), X.real('top', 0.5, 4)
    view = plot_base.area(X)
    fig = V.newTransectFig(*([X.arr(S)] + a.given + [slope, back, depth, top, at]), AreaOfInterest=tuple(view))
    plot_base.in_view(X, fig['TransAx'], view, 'view')
    a.check(X, fig, ix, slope, back, depth, top)
    X.check(fig['TransectIx'] == ix, 'nearest')
    text = fig['TransAx'].titles['left']
    if 'TransAx' in fig and ix != 1:
        X.check(('left' in text) == (ix == 0) and ('right' in text) == (ix == 2) and (X.mode != 'real' or '16m' in text), 'titles')
    drawn = fig['TransFig'].drawn
    V.updateTransectFig(fig, *(b.given + [WHEN]))
    b.check(X, fig, ix, slope, back, depth, top)
    X.check(fig['TransFig'].drawn > drawn and '16:45' in ''.join(str(t) for t in fig['TransAx'].titles.values()), 'redrawn')
    for h in (a, b):
        for i in range(3):
            same(X, list(h.given[0][i]), h.Y[i], 'inputs')
            same(X, list(h.given[1][i]), h.Z[i], 'inputs')


def series(X, n, m):
    plt, V = visual(X)

    def make(tag, n):
        secs = [X.real(tag + 't', 0, 1e5)]
        for i in range(1, n):
            secs.append(secs[-1] + X.real('%sgap%d' % (tag, i), 1, 1e4))
        return secs, {k: [X.real('%s%s%d' % (tag, k, i), -100, 100) for i in range(n)] for k in ('Qin', 'Qout', 'SeaLevel')}

    def check(secs, cols, fig):
        for mark, k in zip(fig[3:6], ('Qin', 'Qout', 'SeaLevel')):
            same(X, mark.y, cols[k], 'series')
            same(X, [X.sec(t) for t in mark.raw[0]], secs, 'series', 1e-5)
    a, b = make('a', n), make('b', m)
    fig = V.bdyCndFig(X.frame(*a))
    check(a[0], a[1], fig)
    X.check(fig[3].axes is fig[4].axes and fig[3].axes is not fig[5].axes, 'series')
    drawn = fig[0].drawn
    V.updateBdyCndFig(fig, X.frame(*b))
    check(b[0], b[1], fig)
    lo, hi = fig[1].lim['x']
    same(X, [X.sec(lo), X.sec(hi)], [b[0][0], b[0][-1]], 'time-axis', 1e-5)
    X.check(fig[0].drawn > drawn, 'redrawn')


def cases(tier):
    c = [('long-%d-%d-%s' % (n, m, bool(b)), longsec, {'n': n, 'm': m, 'bed': b}) for n, m, b in ((3, 3, 1), (2, 4, 1), (4, 2, 0), (3, 2, 0))]
    c += [('transect-%s-%d' % ('-'.join(k or 'none' for k in kinds), ix), transect, {'kinds': kinds, 'ix': ix})
          for kinds in (['cl', 'l', 'c'], ['', 'cl', 'l'], ['c', '', ''], ['rl', 'r', 'cl']) for ix in range(3)]
    c += [('series-%d-%d' % (n, m), series, {'n': n, 'm': m}) for n, m in ((1, 2), (2, 3))]
    return c
