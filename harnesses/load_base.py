"""A model configuration of any values, loaded by loadmod.loadModel."""
import types
import os.path

NAMES = ('ModelName FlowTs WaveTs SeaLevelTs Origin ShoreNormDir ShoreX ShoreY ShoreZ RiverElev OutletEndX OutletEndWidth '
         'OutletEndElev RiverWL RiverVel LagoonWL LagoonVel OutletDep OutletVel OutletEndDep OutletEndVel Closed TimePars '
         'PhysicalPars NumericalPars OutputOpts').split()
PHYS = dict(Kcoef=0.03125, RhoSed=2650, RhoSea=1025, RhoRiv=1000, VoidRatio=0.375, Gravity=9.75, GammaRatio=0.5, WaveDataDepth=10,
            ClosureDepth=5, BeachSlope=0.125, RiverSlope=0.0078125, GrainSize=0.03125, CritShieldsStress=0.046875, MPM_coef=4,
            MPM_exp=1.5, UpstreamLength=40, RiverWidth=64, RoughnessManning=0.03125, GrainRoughness=0.03125, WidthDepthRatio=32,
            BackshoreElev=30, MaxOutletElev=-2, OT_coef=0.000244140625, OT_exp=2, BeachTopElev=2, SpitWidth=10, TargetBarHeight=5,
            TargetBarWidth=74, MinOutletWidth=1, OutletSedSpreadDist=100, OutletBankEroFac=0.5, BarrierPermeability=0,
            ShorelineErosionRate=0)
NUM = dict(Dx=16.0, Beta=1.0, Theta=0.75, Psi=0.375, ErrTol=0.001, MaxIt=30, WarnTol=0.125, MaxMorChange=0.0625)


class Loader(object):
    def __init__(self, X, dx=16.0):
        self.X = X
        C = X.const
        self.f = X.files()
        self.path = self.f.path('case.cnf')
        self.f.put(self.path, 'configuration')
        self.csv, self.shp, self.extra, self.read, self.on_read = {}, {}, {}, [], None
        self.cfg = {
            'ModelName': 'model',
            'BoundaryConditions': {
                'RiverFlow': 'flow.csv', 'WaveConditions': 'waves.csv', 'SeaLevel': 'sea.csv',
                'ShotnoiseHydrographParameters': dict(
                    MeanDaysBetweenEvents=None, MeanEventIncrease=None, FastDecayRate=None, SlowDecayRate=None, FastFlowProp=None,
                    RisingLimbTime=None, HydrographDt=C(60), RandomSeed=None, HydrographStart=None),
                'HarmonicTideParameters': dict(MeanSeaLevel=C(0), TidalRange=None, SeaLevelDt=C(60))},
            'HotStart': dict(InitialConditionsNetCDF=None, HotStartTime=None, ContinueSimulation=False),
            'SpatialInputs': dict(Shoreline=None, RiverLocation=None, BarrierBackshore=None, CliffToe=None, OutletLocation=None,
                                  ShorelineLengthLeft=C(2 * dx), ShorelineLengthRight=C(2 * dx), BeachWidth=C(40)),
            'InitialConditions': dict(OutletWidth=C(20), OutletBed=C(-1), LagoonBed=C(-1), BarrierElev=C(4)),
            'Time': dict(StartTime=X.ts(C(30600)), EndTime=X.ts(C(30600 + 3600)), HydDt=C(16), MorDtMin=C(32), MorDtMax=C(256)),
            'PhysicalParameters': {k: C(v) for k, v in PHYS.items()},
            'NumericalParameters': dict({k: C(v) if k != 'MaxIt' else v for k, v in NUM.items()}, Dx=dx),
            'OutputOptions': dict(OutFile=None, TsOutFile=None, OutInt=C(600), TsOutInt=C(300), LogInt=C(600), PlotInt=C(0))}
        day = [0, 86400]
        self.csv['flow.csv'] = lambda: X.frame(day, {'Flow': [C(10), C(10)]})
        self.csv['sea.csv'] = lambda: X.frame(day, {'SeaLevel': [C(0), C(0)]})
        self.csv['waves.csv'] = lambda: self.waves(day, [C(0), C(0)])

    def waves(self, secs, dirs, **cols):
        X = self.X
        d = {k: [X.const(1)] * len(secs) for k in ('WavePeriod', 'Wlen_h', 'WavePower', 'Hsig_Offshore')}
        d.update(cols)
        d['EDir_h'] = dirs
        return X.frame(secs, d)

    def stubs(self):
        m = types.ModuleType
        conf, val, shp, res = m('configobj'), m('validate'), m('shapefile'), m('pkg_resources')
        me = self

        class Config(dict):
            def __init__(self, path, *a, **k):
                dict.__init__(self, me.cfg)
                me.opened = path

            def validate(self, *a, **k):
                return True
        conf.ConfigObj, conf.flatten_errors = Config, lambda *a, **k: []
        val.Validator = lambda *a, **k: None
        res.resource_filename = lambda *a, **k: 'configspec.cnf'

        class Shape(object):
            def __init__(self, points):
                self.points = [tuple(p) for p in points]

        class Reader(object):
            def __init__(self, path, *a, **k):
                me.read.append(path)
                self.shapeType, self.pts = me.shp[os.path.basename(path)]

            def shapes(self):
                return [Shape(self.pts)]

            def shape(self, i):
                return self.shapes()[i]

        shp.Reader = Reader
        shp.POINT, shp.POLYLINE, shp.POLYGON = 1, 3, 5
        s = dict(self.f.stubs())
        s.update({'configobj': conf, 'validate': val, 'shapefile': shp, 'pkg_resources': res})

        def read_csv(path, *a, **k):
            me.read.append(path)
            if me.on_read is not None:
                me.on_read(path, k)
            return me.csv[os.path.basename(path)]()
        s.update(self.X.pd(read_csv=read_csv))
        s.update(self.extra)
        return s

    def load(self):
        s = self.stubs()
        self.mod = self.X.mod('loadmod', s)
        r = self.mod.loadModel(self.path)
        return types.SimpleNamespace(**dict(zip(NAMES, r)))


def points(X, s):
    """[(time in s, value)] of a series."""
    v = [x for x in s.values]
    return [(X.sec(t), x) for t, x in zip(list(s.index), v)]


def value(X, pts, q):
    """Linear interpolation; pts in order of time, q within them."""
    for (a, u), (b, v) in zip(pts, pts[1:]):
        if X.is_true(q <= b):
            return u + (v - u) * (q - a) / (b - a)
    return pts[-1][1]
