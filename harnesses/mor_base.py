"""Shared set-up of the morphology harnesses (C10-C15, C25): a hapua in model coordinates."""
import pars_base
DX = 16.0
DT = 64
PP = {'ClosureDepth': 8.0, 'BackshoreElev': 32.0, 'BeachTopElev': 6.0, 'SpitWidth': 16.0, 'MinOutletWidth': 2.0,
      'MaxOutletElev': -1.0, 'WidthDepthRatio': 16.0, 'RiverWidth': 64.0, 'OutletBankEroFac': 1.5,
      'OutletSedSpreadDist': 2 * DX, 'ShorelineErosionRate': 0.5}
Y0, Y1, Y2, Y3, Y4 = range(5)


class Hapua(object):
    """State of the model, and one call of the morphological update on it."""

    def __init__(self, X, n, x0, **pp):
        import pandas as pd
        self.X, self.n, self.x0 = X, n, x0
        self.S = [DX * (i - x0) for i in range(n)]
        self.Y = [[None] * 5 for _ in range(n)]
        self.Z = [[None] * 4 for _ in range(n)]
        self.pp = pars_base.phys(**dict(PP, **pp))
        self.dt = DT
        self.tp = {'MorDtMin': pd.Timedelta(seconds=DT), 'MorDtMax': pd.Timedelta(seconds=DT)}
        self.num = pars_base.num(Dx=DX, MaxMorChange=float('inf'))
        self.cst = [X.const(0)] * n
        self.op = [X.const(0)] * n
        self.lst = [X.const(0)] * (n - 1)
        self.lagwl = [X.const(-50)] * n
        self.outdep = [X.nan] * n
        self.online, self.chan = [], []
        self.closed = True
        self.ends = [X.nan, X.nan]
        self.endw, self.ende = X.const(8), X.const(-1)

    # -- building
    def transect(self, i, outlet, y=None, z=None):
        """Transect i; y and z give the values of its front, channel, lagoon (None: a wide default)."""
        X = self.X
        d = [X.const(400), X.const(300), X.const(200), X.const(100), X.const(0)] if y is None else list(y)
        e = [X.const(5), X.const(-1), X.const(4), X.const(-2)] if z is None else list(z)
        if not outlet:
            d[1] = d[2] = e[1] = e[2] = X.nan
        self.Y[i], self.Z[i] = d, e

    def channel(self, e0, end, closed):
        """Online transects for an outlet channel from transect e0 to `end` (transect, or k + .5 between)."""
        n, x0 = self.n, self.x0
        self.closed = closed
        self.online = list(range(x0, e0 + 1)) if e0 >= x0 else list(range(x0, e0 - 1, -1))
        if closed:
            self.chan = []
        else:
            self.chan = [i for i in range(e0, n) if i <= end] if end >= e0 else [i for i in range(e0, -1, -1) if i >= end]

    def sections(self, nr, wid, dep):
        """River sections and the channel arrays (flags as the channel assembly gives them)."""
        X = self.X
        self.nr = nr
        self.flag = [0] * nr + [1] * len(self.online) + ([] if self.closed else [2] * len(self.chan) + [3, 3])
        N = len(self.flag)
        self.N = N
        self.wid = [wid(i) for i in range(N)]
        self.dep = [dep(i) for i in range(N)]
        self.bed = [X.const(0)] * (N - 1)
        self.riv = [X.const(2 - i) for i in range(nr)]

    # -- running
    def arrays(self):
        X = self.X
        self.aS, self.aY, self.aZ = X.arr(list(self.S)), X.arr([list(r) for r in self.Y]), X.arr([list(r) for r in self.Z])
        self.aE, self.aW, self.aEl = X.arr(list(self.ends)), X.scalar0(self.endw), X.scalar0(self.ende)
        self.aR = X.arr(list(self.riv))

    def run(self):
        """One update; afterwards y, z, e, w, el, r hold the new state."""
        X = self.X
        self.arrays()
        m = X.mod('mor')
        self.mordt, breach = m.updateMorphology(
            self.aS, self.aY, self.aZ, self.aE, self.aW, self.aEl, self.aR, X.intarr(self.online), X.intarr(self.chan),
            X.arr(list(self.lagwl)), X.arr(list(self.outdep)), X.arr(list(self.wid)), X.arr(list(self.dep)),
            X.arr([X.const(DX)] * (self.N - 1)), X.intarr(self.flag), self.closed, X.arr(list(self.lst)),
            X.arr(list(self.bed)), X.arr(list(self.cst)), X.arr(list(self.op)),
            getattr(self, 'mordt0', self.tp['MorDtMin']), dict(self.pp), dict(self.tp), dict(self.num))
        self.breach = X.is_true(breach)
        n = self.n
        self.y = [[self.aY[i, j] for j in range(5)] for i in range(n)]
        self.z = [[self.aZ[i, j] for j in range(4)] for i in range(n)]
        self.e = [self.aE[0], self.aE[1]]
        self.w, self.el = self.aW[()], self.aEl[()]
        self.r = [self.aR[k] for k in range(self.nr)]
        return self

    def has(self, i):
        return not self.X.isnan(self.Y[i][1])

    def dvol(self, k):
        """Bedload in minus out of section k (1..), nothing leaving a closed lagoon."""
        out = self.bed[k] if k < self.N - 1 else self.X.const(0)
        return self.bed[k - 1] - out
