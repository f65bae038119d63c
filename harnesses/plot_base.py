"""Stands for matplotlib: keeps what is drawn, draws nothing."""
import types


class Any(object):
    """Accepts any use."""

    def __call__(self, *a, **k):
        return Any()

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Any()

    def __getitem__(self, k):
        return Any()

    def __iter__(self):
        return iter(())


def in_view(X, ax, area, label):
    for got, want in zip(list(ax.lim['x']) + list(ax.lim['y']), area):
        X.close(got, want, label, 1e-6)


def flat(v):
    """A list of numbers from whatever was given."""
    if hasattr(v, 'values'):
        v = v.values
    if hasattr(v, 'reshape'):
        return list(v.reshape(-1))
    if isinstance(v, (list, tuple)) or hasattr(v, '__len__'):
        return [y for x in v for y in (flat(x) if hasattr(x, '__len__') else [x])]
    return [v]


class Mark(Any):
    """A line, polygon, arrow or set of arrows: x and y (and u and v of arrows)."""

    def __init__(self, axes, kind, *a, **k):
        self.axes, self.kind, self.k, self.gone, self.style = axes, kind, k, False, None
        nums = [x for x in a if not isinstance(x, str)]
        self.style = ''.join(x for x in a if isinstance(x, str))
        if kind == 'quiver':
            self.x, self.y, self.u, self.v = [flat(x) for x in nums[:4]]
            self.scale, self.width = k.get('scale'), k.get('width')
        elif kind == 'arrow':
            self.x, self.y, self.u, self.v = nums[:4]
        else:
            self.set_data(*nums[:2])

    def set_data(self, *a):
        x, y = a if len(a) == 2 else a[0]
        self.x, self.y, self.raw = flat(x), flat(y), (x, y)

    def set_xdata(self, x):
        self.x = flat(x)

    def set_ydata(self, y):
        self.y = flat(y)

    def set_xy(self, xy):
        self.x, self.y = [p[0] for p in xy], [p[1] for p in xy]

    def set_offsets(self, xy):
        self.set_xy(xy)

    def set_UVC(self, u, v, c=None):
        self.u, self.v = flat(u), flat(v)

    def remove(self):
        assert not self.gone
        self.gone = True


class Axes(Any):
    def __init__(self, fig):
        self.fig, self.marks, self.lim, self.titles, self.labels = fig, [], {}, {}, {}

    def _add(self, kind, *a, **k):
        m = Mark(self, kind, *a, **k)
        self.marks.append(m)
        return m

    def plot(self, *a, **k):
        return [self._add('line', *a, **k)]

    def fill(self, *a, **k):
        return [self._add('fill', *a, **k)]

    def arrow(self, *a, **k):
        return self._add('arrow', *a, **k)

    def quiver(self, *a, **k):
        return self._add('quiver', *a, **k)

    def twinx(self):
        return self.fig.add_subplot()

    def _lim(self, which, a, k):
        lo, hi = (a[0] if len(a) == 1 else a) if a else (k.get('left', k.get('bottom')), k.get('right', k.get('top')))
        self.lim[which] = (lo, hi)

    def set_xlim(self, *a, **k):
        self._lim('x', a, k)

    def set_ylim(self, *a, **k):
        self._lim('y', a, k)

    def set_xlabel(self, s, **k):
        self.labels['x'] = s

    def set_ylabel(self, s, **k):
        self.labels['y'] = s

    def set_title(self, s, loc='center', **k):
        self.titles[loc] = s


class Figure(Any):
    def __init__(self, *a, **k):
        self.axes, self.drawn, self.open = [], 0, True
        self.canvas = types.SimpleNamespace(draw=self._draw, flush_events=lambda: None, draw_idle=self._draw)

    def _draw(self):
        self.drawn += 1

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    subplots = add_subplot

    def suptitle(self, s, **k):
        self.title = s


class Plt(Any):
    def __init__(self):
        self.figs, self.notes = [], []

    def figure(self, *a, **k):
        self.figs.append(Figure())
        return self.figs[-1]

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.add_subplot()

    def subplot2grid(self, *a, **k):
        return self.figs[-1].add_subplot()

    def gca(self):
        if not self.figs:
            self.figure()
        f = self.figs[-1]
        return f.axes[-1] if f.axes else f.add_subplot()

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def arrow(self, *a, **k):
        return self.gca().arrow(*a, **k)

    def annotate(self, text, xy, *a, **k):
        self.notes.append((text, xy))
        return Any()

    def close(self, f=None):
        if f is not None:
            f.open = False


class Animation(object):
    """Draws every frame, in order, when saved."""
    made = []

    def __init__(self, fig, func, frames=None, fargs=(), interval=None, init_func=None, **k):
        self.fig, self.func, self.frames, self.fargs = fig, func, frames, tuple(fargs or ())
        self.interval, self.shown, self.saved = interval, [], None
        self.event_source = Any()
        Animation.made.append(self)

    def save(self, path, *a, **k):
        self.saved, self.how = path, k
        for f in (range(self.frames) if isinstance(self.frames, int) else self.frames):
            self.func(f, *self.fargs)
            if self.watch is not None:
                self.watch(f)
    watch = None


def area(X):
    """A field of view: left, right, bottom, top."""
    a = [X.real('view%d' % i, -100, 100) for i in range(4)]
    X.assume(X.And(a[1] >= a[0] + 1, a[3] >= a[2] + 1))
    return a


def stubs(plt, anim=None):
    m = types.ModuleType('matplotlib')
    m.pyplot, m.use = plt, lambda *a, **k: None
    m.animation = types.SimpleNamespace(FuncAnimation=anim or Animation)
    conv = types.ModuleType('pandas.plotting')
    conv.register_matplotlib_converters = lambda *a, **k: None
    return {'matplotlib': m, 'matplotlib.pyplot': plt, 'matplotlib.animation': m.animation, 'pandas.plotting': conv}
