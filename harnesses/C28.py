"""The map drawn of the hapua (visualise.modelView, updateModelView, mapView)."""
import datetime
import plot_base
FUNCS = ['hapuamod/visualise.py:modelView', 'hapuamod/visualise.py:updateModelView', 'hapuamod/visualise.py:mapView']
BOUNDS = ('7 transects, river in line with the middle one; outlet running right, left or straight out over 1 to 3 transects with its ends at any '
          'position, of any width, or closed; shoreline, channel, lagoon edge and cliff symbolic at two transects; any wave direction and transport; any origin and facing of the shore')
ASSUMPTIONS = ['matplotlib draws the lines it is given', 'everything in order from sea to cliff', 'outlet banks 1e-3 m or more from a transect, and from running straight out']
REQUIRED = ['shoreline', 'lagoon-edge', 'cliff', 'river', 'channel', 'crest', 'banks', 'mirror', 'wave-arrow', 'transport-arrows', 'titles', 'closed', 'inputs',
            'drawn', 'real-world', 'view']
BUDGET = {'quick': 60, 'thorough': 400}
OPTS = {'prop_ms': 3000, 'deep_ms': 5000, 'feas_ms': 3000, 'name_div': True}
WHEN = datetime.datetime(2021, 2, 13, 16, 45)
DX = 16.0
S = [DX * i for i in range(-3, 4)]
BASE = [[60., 50., 40., 30., 5.], [62., 51., 41., 31., 6.], [63., 52., 40., 29., 4.], [61., 50., 42., 30., 5.], [60., 51., 41., 31., 7.],
        [62., 52., 42., 30., 6.], [61., 50., 40., 29., 5.]]
RW, SPIT = 20.0, 8.0


def isnan(v):
    return isinstance(v, float) and v != v


def same(X, got, want, label, tol=1e-6):
    X.check(len(got) == len(want), label)
    for a, b in zip(got, want):
        X.close(a, b, label, tol, nan_ok=True)


class Map(object):
    """A hapua: transects, outlet; `mirror` gives its mirror image."""

    def __init__(self, Y, Z, chan, ends, width, edir, lst, cst, power):
        self.Y, self.Z, self.chan, self.ends, self.width, self.edir, self.lst, self.cst, self.power = Y, Z, chan, ends, width, edir, lst, cst, power

    def mirror(self):
        n = len(S)
        return Map(self.Y[::-1], self.Z[::-1], [n - 1 - i for i in self.chan], [-e for e in self.ends], self.width, -self.edir,
                   [-q for q in self.lst[::-1]], self.cst[::-1], self.power)

    def args(self, X):
        self.given = [X.arr([list(r) for r in self.Y]), X.arr([list(r) for r in self.Z])]
        return [X.arr(S), self.given[0], X.arr(list(self.ends)), X.scalar0(self.width), X.intarr(self.chan)]

    def kw(self, X):
        return {'ShoreZ': self.given[1], 'WavePower': self.power, 'EDir_h': self.edir, 'LST': X.arr(list(self.lst)), 'CST': X.arr(list(self.cst))}


def make(X, chan, ends, sym, arrows):
    n = len(S)
    Y = [[X.const(v) for v in r] for r in BASE]
    for i in sym:
        c = X.real('cliff%d' % i, -5, 10)
        l = c + X.real('lag%d' % i, 1, 30)
        b2 = l + X.real('inner%d' % i, 1, 30)
        b1 = b2 + X.real('chan%d' % i, 1, 30)
        Y[i] = [b1 + X.real('spit%d' % i, 1, 30), b1, b2, l, c]
    for i in range(n):
        if i not in chan:
            Y[i][1] = Y[i][2] = X.nan
    Z = [[X.real('crest%d' % i, 1, 9) if i in sym else X.const(3), X.nan, X.nan, X.const(-1)] for i in range(n)]
    C = X.const
    if arrows:
        return Map(Y, Z, chan, ends, X.real('width', 1, 14), X.angle('edir', -X.pi(), X.pi()), [X.real('lst%d' % i, -1, 1) for i in range(n - 1)],
                   [X.real('cst%d' % i, 0, 1) for i in range(n)], X.real('power', 0, 100))
    return Map(Y, Z, chan, ends, X.real('width', 1, 14), C(0.25), [C(0)] * (n - 1), [C(0)] * n, C(1))


def pieces(x, y):
    """Polylines of a line broken by NaN."""
    out = [[]]
    for a, b in zip(x, y):
        if isnan(a):
            out.append([])
        else:
            out[-1].append((a, b))
    return [p for p in out if p]


def linear(X, x, col):
    """On the line through the positions `col` of the transects."""
    for i in range(len(S) - 1):
        if X.is_true(x <= S[i + 1]) or i == len(S) - 2:
            return col[i] + (col[i + 1] - col[i]) * (x - S[i]) / DX


def mirrored(X, a, b, label='mirror'):
    """Polylines a are the mirror image of b, drawn either way."""
    X.check(len(a) == len(b), label)
    for p, q in zip(a, b[::-1]):
        X.check(len(p) == len(q), label)
        eq = lambda u, v: X.And(u[0] + v[0] <= 1e-6, u[0] + v[0] >= -1e-6, u[1] - v[1] <= 1e-6, u[1] - v[1] >= -1e-6)
        if len(p) == len(q):
            X.check(X.Or(X.And(*[eq(u, v) for u, v in zip(p, q)]), X.And(*[eq(u, v) for u, v in zip(p, q[::-1])])), label)


def around(poly):
    """A polygon starting at its first offshore corner."""
    k = [i for i, p in enumerate(poly) if not hasattr(p[1], 'z') and float(p[1]) > 4000]
    if not k:
        return poly
    return poly[k[0]:] + poly[:k[0]]


def common(X, m, f):
    """What is drawn alike for an open and a closed outlet."""
    n = len(S)
    ch = f['ChannelLine']
    same(X, ch.x, S + S, 'channel')
    same(X, ch.y, [r[1] for r in m.Y] + [r[2] for r in m.Y], 'channel')
    cliff = [r[4] for r in m.Y]
    l, r = linear(X, X.const(-RW / 2), cliff), linear(X, X.const(RW / 2), cliff)
    same(X, f['CliffLine'].x, S[:3] + [-RW / 2, X.nan, RW / 2] + S[4:], 'cliff')
    same(X, f['CliffLine'].y, cliff[:3] + [l, X.nan, r] + cliff[4:], 'cliff')
    p = pieces(f['RiverLine'].x, f['RiverLine'].y)
    X.check(len(p) == 2 and len(p[0]) == len(p[1]) == 2, 'river')
    for q, x, y in zip(p, (-RW / 2, RW / 2), (l, r)):
        same(X, [q[0][0], q[1][0]], [x, x], 'river')
        X.check(X.Or(X.And(q[0][1] <= -1000, q[1][1] <= y + 1e-6, q[1][1] >= y - 1e-6), X.And(q[1][1] <= -1000, q[0][1] <= y + 1e-6, q[0][1] >= y - 1e-6)), 'river')
    same(X, f['CrestLine'].x, S, 'crest')
    same(X, f['CrestLine'].y, [z[0] for z in m.Z], 'crest')
    for i in range(n):
        same(X, list(m.given[0][i]), m.Y[i], 'inputs')
        same(X, list(m.given[1][i]), m.Z[i], 'inputs')


def arrows(X, m, f, scaling):
    a, q, c = f['WaveArrow'], f['LstQuiver'], f['CstQuiver']
    X.check(not (a.gone or q.gone or c.gone), 'wave-arrow')
    cos = X.cos(m.edir)
    X.assume(X.Or(cos >= 1e-3, cos <= -1e-3))
    if X.is_true(cos > 0):
        # the way the waves go: towards the shore
        X.close(a.u, -X.sin(m.edir) * m.power * scaling, 'wave-arrow', 1e-6)
        X.close(a.v, -cos * m.power * scaling, 'wave-arrow', 1e-6)
    else:
        X.check(X.And(a.u <= 0.01, a.u >= -0.01, a.v <= 0.01, a.v >= -0.01), 'wave-arrow')
    same(X, q.x, [(u + v) / 2 for u, v in zip(S, S[1:])], 'transport-arrows')
    same(X, q.y, [(u[0] + v[0]) / 2 for u, v in zip(m.Y, m.Y[1:])], 'transport-arrows')
    same(X, q.u, m.lst, 'transport-arrows')
    same(X, q.v, [X.const(0)] * len(m.lst), 'transport-arrows')
    same(X, c.x, S, 'transport-arrows')
    same(X, c.y, [r[0] for r in m.Y], 'transport-arrows')
    same(X, c.u, [X.const(0)] * len(S), 'transport-arrows')
    same(X, c.v, [-v for v in m.cst], 'transport-arrows')


def opened(X, m, f):
    shore, edge = [r[0] for r in m.Y], [r[3] for r in m.Y]
    first = m.Y[m.chan[0]][1] - m.Y[m.chan[0]][2]
    lb, rb = m.ends[1] - m.width / 2, m.ends[1] + m.width / 2
    ul, ur = m.ends[0] - first / 2, m.ends[0] + first / 2
    left = [i for i in range(len(S)) if X.is_true(lb >= S[i])]
    right = [i for i in range(len(S)) if X.is_true(rb <= S[i])]
    same(X, f['ShoreLine'].x, [S[i] for i in left] + [lb, X.nan, rb] + [S[i] for i in right], 'shoreline')
    same(X, f['ShoreLine'].y, [shore[i] for i in left] + [linear(X, lb, shore), X.nan, linear(X, rb, shore)] + [shore[i] for i in right], 'shoreline', 1e-5)
    dots = [i for i in range(len(S)) if i not in left and i not in right]
    same(X, f['ShoreDots'].x, [S[i] for i in dots], 'shoreline')
    same(X, f['ShoreDots'].y, [shore[i] for i in dots], 'shoreline')
    left = [i for i in range(len(S)) if X.is_true(ul >= S[i])]
    right = [i for i in range(len(S)) if X.is_true(ur <= S[i])]
    same(X, f['LagoonLine'].x, [S[i] for i in left] + [ul, X.nan, ur] + [S[i] for i in right], 'lagoon-edge')
    same(X, f['LagoonLine'].y, [edge[i] for i in left] + [linear(X, ul, edge), X.nan, linear(X, ur, edge)] + [edge[i] for i in right], 'lagoon-edge', 1e-5)
    # banks go from the lagoon edge to the shore
    p = pieces(f['OutletLine'].x, f['OutletLine'].y)
    X.check(len(p) == 2, 'banks')
    for q, a, b in zip(p, (ul, ur), (lb, rb)):
        same(X, [q[0][0], q[0][1], q[-1][0], q[-1][1]], [a, linear(X, a, edge), b, linear(X, b, shore)], 'banks', 1e-5)
    # along the channel: the seaward bank on one side, the landward one on the other
    if X.is_true(X.And(ul < lb, ur < rb)):
        seaward, landward = p
    elif X.is_true(X.And(ul > lb, ur > rb)):
        landward, seaward = p
    else:
        return
    for q, k in ((seaward, 1), (landward, 2)):
        lo, hi = (q[0][0], q[-1][0]) if m.ends[1] is not m.ends[0] and X.is_true(q[0][0] < q[-1][0]) else (q[-1][0], q[0][0])
        for i in m.chan:
            if X.is_true(X.And(lo < S[i], S[i] < hi)):
                at = [u for u in q if not hasattr(u[0], 'z') and float(u[0]) == S[i]]
                X.check(len(at) >= 1, 'banks')
                if at:
                    X.close(at[0][1], m.Y[i][k], 'banks', 1e-5)


def mirror_pair(X, f, g):
    for k in ('ShoreLine', 'LagoonLine', 'CliffLine', 'RiverLine', 'OutletLine', 'CliffFill'):
        mirrored(X, pieces(f[k].x, f[k].y), pieces(g[k].x, g[k].y), 'mirror')
    for p, q in zip(pieces(f['WaterFill'].x, f['WaterFill'].y), pieces(g['WaterFill'].x, g['WaterFill'].y)):
        mirrored(X, [around(p[::-1])], [around(q)], 'mirror')


def body(X, chan, ends, sym, with_arrows=False):
    plt = plot_base.Plt()
    V = X.mod('visualise', plot_base.stubs(plt))
    e = [X.real('end%d' % i, lo, hi) for i, (lo, hi) in enumerate(ends)]
    m = make(X, chan, e, sym, with_arrows)
    first = m.Y[chan[0]][1] - m.Y[chan[0]][2]
    for c, w in ((e[0], first), (e[1], m.width)):
        for s in S:
            for b in (c - w / 2, c + w / 2):
                X.assume(X.Or(b - s >= 1e-3, s - b >= 1e-3))
    for sign in (-1, 1):
        b = e[1] - e[0] + sign * (m.width - first) / 2
        X.assume(X.Or(b >= 1e-3, b <= -1e-3))
    view = plot_base.area(X)
    f = V.modelView(*(m.args(X) + [RW, SPIT]), PlotTime=WHEN, AreaOfInterest=tuple(view), **m.kw(X))
    plot_base.in_view(X, f['PlanAx'], view, 'view')
    common(X, m, f)
    opened(X, m, f)
    X.check('16:45' in ''.join(f['PlanAx'].titles.values()) and f['PlanFig'].drawn >= 1, 'titles')
    if with_arrows:
        arrows(X, m, f, 0.01)
        return
    w = m.mirror()
    g = V.modelView(*(w.args(X) + [RW, SPIT]), **w.kw(X))
    mirror_pair(X, f, g)


def closing(X, sym, chan):
    plt = plot_base.Plt()
    V = X.mod('visualise', plot_base.stubs(plt))
    C = X.const
    m = make(X, [3], [C(0), C(1)], sym, True)
    f = V.modelView(*(m.args(X) + [RW, SPIT]), **m.kw(X))
    drawn = f['PlanFig'].drawn
    m = make(X, chan, [C(0), C(1)], sym, True)
    m.ends, m.chan = [X.nan, X.nan], []
    V.updateModelView(f, *m.args(X), Closed=True, PlotTime=WHEN, **m.kw(X))
    common(X, m, f)
    arrows(X, m, f, 0.01)
    same(X, f['ShoreLine'].x, S, 'closed')
    same(X, f['ShoreLine'].y, [r[0] for r in m.Y], 'closed')
    same(X, f['LagoonLine'].x, S, 'closed')
    same(X, f['LagoonLine'].y, [r[3] for r in m.Y], 'closed')
    X.check(all(isnan(float(v)) for k in ('OutletLine', 'ShoreDots') for v in f[k].x if not hasattr(v, 'z')), 'closed')
    X.check('16:45' in ''.join(f['PlanAx'].titles.values()) and f['PlanFig'].drawn > drawn, 'drawn')


def world(X, sym, lagoon):
    """The map in real-world coordinates (mapView)."""
    plt = plot_base.Plt()
    V = X.mod('visualise', plot_base.stubs(plt))
    m = make(X, [3, 4], [X.const(0), X.const(20)], sym, False)
    n = len(S)
    for i in range(n):
        if i not in lagoon:
            m.Y[i][3] = X.nan
    east, north, d = X.real('east', -1e4, 1e4), X.real('north', -1e4, 1e4), X.angle('dir', -X.pi(), X.pi())
    sin, cos = X.sin(d), X.cos(d)
    # offshore along the shore normal, alongshore to the right of it
    at = lambda x, y: (east + x * cos + y * sin, north - x * sin + y * cos)
    Y = X.arr([list(r) for r in m.Y])
    V.mapView(X.arr(S), Y, X.arr([east, north]), d)
    marks = plt.gca().marks
    named = {k.k['label']: k for k in marks if 'label' in k.k}
    L = 'real-world'
    X.check({'Shore', 'Lagoon', 'Cliff', 'River', 'Origin'} <= set(named), L)

    def shows(mark, pts):
        same(X, mark.x, [p[0] for p in pts], L, 1e-5)
        same(X, mark.y, [p[1] for p in pts], L, 1e-5)
    none = (X.nan, X.nan)
    col = lambda j: [none if isnan(m.Y[i][j]) else at(S[i], m.Y[i][j]) for i in range(n)]
    shows(named['Shore'], col(0))
    shows(named['Lagoon'], col(3))
    shows(named['Cliff'], col(4))
    shows(named['Origin'], [(east, north)])
    rest = [k for k in marks if 'label' not in k.k and k.kind == 'line']
    bank, ends = [k for k in rest if len(k.x) == n], [k for k in rest if len(k.x) == 2]
    X.check(len(bank) == 1 and len(ends) == 2, L)
    shows(bank[0], col(2))
    for k, i in zip(ends, (lagoon[0], lagoon[-1])):
        shows(k, [at(S[i], m.Y[i][3]), at(S[i], m.Y[i][4])])
    # the river reaches the cliff on the line through the origin
    river = named['River']
    X.check(len(river.x) == 2, L)
    q = at(0, m.Y[n // 2][4])
    X.close(river.x[1], q[0], L, 1e-5)
    X.close(river.y[1], q[1], L, 1e-5)
    X.close((river.x[0] - east) * cos - (river.y[0] - north) * sin, 0, L, 1e-4)
    arr = [k for k in marks if k.kind == 'arrow']
    X.check(len(arr) == 2 and [t for t, _ in plt.notes] == ['X', 'Y'], L)
    for k, (u, v), note in zip(arr, ((cos, -sin), (sin, cos)), plt.notes):
        X.close(k.x, east, L, 1e-5)
        X.close(k.y, north, L, 1e-5)
        X.close(k.u * v - k.v * u, 0, L, 1e-5)
        X.check(k.u * u + k.v * v > 0, L)
        du, dv = note[1][0] - east, note[1][1] - north
        X.close(du * v - dv * u, 0, L, 1e-4)
        X.check(du * u + dv * v > 0, L)
    for i in range(n):
        same(X, list(Y[i]), m.Y[i], 'inputs')


CASES = {'straight': ([3], ((-6, 6), (-6, 6))), 'right': ([3, 4], ((-4, 4), (18, 30))), 'left': ([3, 2], ((-4, 4), (-30, -18))),
         'right-far': ([3, 4, 5], ((-4, 4), (33, 40))), 'right-right': ([4, 5], ((14, 18), (33, 40)))}


def cases(tier):
    c = [('%s-%d' % (k, s), body, {'chan': ch, 'ends': e, 'sym': [s]}) for k, (ch, e) in CASES.items() for s in ((3, 4) if tier == 'quick' else range(7))]
    c += [('arrows-%s' % k, body, {'chan': CASES[k][0], 'ends': CASES[k][1], 'sym': [2], 'with_arrows': True}) for k in ('straight', 'right')]
    c += [('world-%d' % s, world, {'sym': [s], 'lagoon': lag}) for s, lag in ((1, [1, 2, 3, 4, 5]), (3, list(range(7))), (4, [2, 3, 4, 5]))]
    c += [('closed-%d' % s, closing, {'sym': [s], 'chan': ch}) for s, ch in ((2, []), (4, [3, 4]))]
    return c
