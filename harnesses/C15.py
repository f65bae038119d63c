"""The morphological step does not favour left or right (mor.updateMorphology on mirrored hapua)."""
import mor_base as mb
import C13
import C14
FUNCS = ["hapuamod/mor.py:updateMorphology", "hapuamod/mor.py:cliffCollision"]
BOUNDS = ('6 transects, one or two with every position, width and level symbolic, symbolic longshore transport, overtopping and bedload; '
          'bedload into and out of the outlet end; outlet running left or right ending on or between transects, straight out, or lagoon closed, with and without lagoon and '
          'relic channel; erosion and overtopping breaches with symbolic retreat, crests and water levels; one step, compared with the '
          'step of the mirror image')
ASSUMPTIONS = ['no transport across the outlet end where it lies exactly on a transect (which side of the transect it is on is '
               'then a convention)', 'distinct distances from the river where several transects could breach at once']
REQUIRED = ['shore', 'levels', 'outlet', 'river', 'breach', 'timestep']
BUDGET = {'quick': 55, 'thorough': 600}
OPTS = {'prop_ms': 4000, 'deep_ms': 6000, 'feas_ms': 2000, 'name_div': True}


def mirror(X, h):
    m = mb.Hapua(X, h.n, h.n - 1 - h.x0)
    m.Y, m.Z = [list(r) for r in h.Y[::-1]], [list(r) for r in h.Z[::-1]]
    m.pp, m.tp, m.num = dict(h.pp), dict(h.tp), dict(h.num)
    m.cst, m.op = list(h.cst[::-1]), list(h.op[::-1])
    m.lst = [-v for v in h.lst[::-1]]
    m.lagwl, m.outdep = list(h.lagwl[::-1]), list(h.outdep[::-1])
    flip = lambda v: v if X.isnan(v) else -v
    m.ends = [flip(v) for v in h.ends]
    m.online, m.chan = [h.n - 1 - i for i in h.online], [h.n - 1 - i for i in h.chan]
    m.closed, m.endw, m.ende = h.closed, h.endw, h.ende
    for k in ('nr', 'flag', 'N', 'wid', 'dep', 'bed', 'riv'):
        v = getattr(h, k)
        setattr(m, k, list(v) if isinstance(v, list) else v)
    return m


def compare(X, h):
    m = mirror(X, h)
    h.run()
    m.run()
    X.check(h.breach == m.breach, 'breach')
    X.check(bool(h.mordt == m.mordt), 'timestep')
    for i in range(h.n):
        for j in range(5):
            X.close(h.y[i][j], m.y[h.n - 1 - i][j], 'shore', nan_ok=True)
        for j in range(4):
            X.close(h.z[i][j], m.z[h.n - 1 - i][j], 'levels', nan_ok=True)
    for k in range(2):
        v = m.e[k]
        X.close(h.e[k], v if X.isnan(v) else -v, 'outlet', nan_ok=True)
    X.close(h.w, m.w, 'outlet')
    X.close(h.el, m.el, 'outlet')
    for k in range(h.nr):
        X.close(h.r[k], m.r[k], 'river')


def still(X, h):
    if h.closed:
        return
    end = (h.ends[1] + X.const(0) - h.S[0]) / mb.DX
    for i in range(h.n):
        if X.is_true(end == i):
            h.lst[i] = X.const(0)
            if i:
                h.lst[i - 1] = X.const(0)


def step(X, **k):
    h = C13.setup(X, **k)
    still(X, h)
    compare(X, h)


def endflow(X, dep, **k):
    """Bedload eroding or filling the outlet end (banks or bed)."""
    h = C13.setup(X, flow=False, waves=False, **k)
    h.dep[-2:] = [X.const(dep)] * 2
    h.bed[-2:] = [X.real('in', 0, 1), X.real('out', 0, 1)]
    compare(X, h)


class Stop(Exception):
    pass


def breach(X, kind, **k):
    """The breach cases of C14, up to the step."""
    got = []
    orig = mb.Hapua.run

    def grab(h):
        got.append(h)
        raise Stop()
    mb.Hapua.run = grab
    try:
        getattr(C14, kind)(X, **k)
    except Stop:
        pass
    finally:
        mb.Hapua.run = orig
    still(X, got[0])
    compare(X, got[0])


def cases(tier):
    c = []
    for name, fn, k in C13.cases(tier):
        if name.startswith('left'):
            continue                            # the mirror of the right case
        c.append((name, step, k))
    for name, end in (('straight', 3), ('right', 5), ('right-mid', 4.5), ('left', 1)):
        for dep in (8, 1):
            c.append(('%s-end%d' % (name, dep), endflow, {'n': 7, 'x0': 2 if end > 3 else 3, 'e0': 3, 'end': end, 'closed': False, 'focus': [], 'dep': dep}))
    for name, fn, k in C14.cases(tier):
        er = k.get('erode') or k.get('spill') or k.get('chan')
        if 'left' in name or fn is C14.relic and k['what'] == 'erode' and len(k['chan']) > 1 and tier == 'quick':
            continue
        if fn is not C14.relic and len(er) == 2 and abs(er[0] - k['x0']) == abs(er[1] - k['x0']):
            continue
        if tier == 'quick' and fn is not C14.relic and k['x0'] == 3:
            continue
        c.append((name, breach, dict(k, kind=fn.__name__)))
    return c
