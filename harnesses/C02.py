"""Cross-shore transect / polyline intersection (geom.intersectPolyline)."""
FUNCS = ['hapuamod/geom.py:intersectPolyline']
BOUNDS = 'polylines of 2 to 4 points (thorough: 5) and closed polygons of 3 and 4 corners, every coordinate symbolic'
ASSUMPTIONS = []
REQUIRED = ['count', 'on-line', 'within-lo', 'even', 'crossed']
BUDGET = {'quick': 60, 'thorough': 400}
OPTS = {}


def body(X, n, closed):
    g = X.mod('geom')
    pts = [[X.real('x%d' % i, -1000, 1000), X.real('y%d' % i, -1000, 1000)] for i in range(n)]
    if closed:
        pts.append(list(pts[0]))
    xc = X.real('xc', -1000, 1000)
    P = X.arr(pts)
    y = g.intersectPolyline(P, xc)
    # independent oracle: the segments having one end to the left and the other not
    segs = []
    for a, b in zip(pts, pts[1:]):
        if X.is_true(X.Or(X.And(a[0] < xc, b[0] >= xc), X.And(a[0] >= xc, b[0] < xc))):
            segs.append((a, b))
    X.check(len(y) == len(segs), 'count')
    if closed:
        X.check(len(y) % 2 == 0, 'even')
    else:
        xs = [p[0] for p in pts]
        X.check(X.Implies(X.And(X.min(*xs) < xc, xc <= X.max(*xs)), len(y) >= 1), 'crossed')
    for v, (a, b) in zip(y, segs):
        # on the segment's line and between its ends
        X.close((v - a[1]) * (b[0] - a[0]), (b[1] - a[1]) * (xc - a[0]), 'on-line', 1e-4)
        X.check(v >= X.min(a[1], b[1]) - 1e-6, 'within-lo')
        X.check(v <= X.max(a[1], b[1]) + 1e-6, 'within-hi')
    X.close_all(P, X.arr(pts), 'unchanged')
    X.observe('n', len(y))
    X.observe('y', y)


def cases(tier):
    c = [('open%d' % n, body, {'n': n, 'closed': False}) for n in ((2, 3, 4) if tier == 'quick' else (2, 3, 4, 5))]
    return c + [('closed%d' % n, body, {'n': n, 'closed': True}) for n in (3, 4)]
