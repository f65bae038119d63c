"""Edits that keep the behaviour: every check named has to stay quiet (exit 0) on each of them.
   /opt/venv/bin/python tools/refactors.py [NAME...]     works on copies of /repo's HEAD under /tmp; no check uses this file."""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
G, C, R, M, O, S, L, K = ['hapuamod/%s.py' % n for n in ('geom', 'coast', 'riv', 'mor', 'out', 'synth', 'loadmod', 'core')]

REF = []


def ref(name, checks, *edits):
    REF.append((name, checks.split(), edits))


ref('geom-rotation', 'C01 C25', (G, '''    Xreal = (Origin[0] + 
             Xmod * np.sin(ShoreNormalDir+np.pi/2) - 
             Ymod * np.cos(ShoreNormalDir+np.pi/2))
    Yreal = (Origin[1] + 
             Xmod * np.cos(ShoreNormalDir+np.pi/2) + 
             Ymod * np.sin(ShoreNormalDir+np.pi/2))
''', '''    (CosDir, SinDir) = (np.cos(ShoreNormalDir), np.sin(ShoreNormalDir))
    Xreal = Origin[0] + Xmod * CosDir + Ymod * SinDir
    Yreal = Origin[1] - Xmod * SinDir + Ymod * CosDir
'''), (G, '''    Dist = np.sqrt(Xrelative**2 + Yrelative**2)
    Dir = np.arctan2(Xrelative, Yrelative)
    Xmod = Dist * np.cos(ShoreNormalDir - Dir + np.pi/2)
    Ymod = Dist * np.sin(ShoreNormalDir - Dir + np.pi/2)
''', '''    Xmod = Xrelative * np.cos(ShoreNormalDir) - Yrelative * np.sin(ShoreNormalDir)
    Ymod = Xrelative * np.sin(ShoreNormalDir) + Yrelative * np.cos(ShoreNormalDir)
'''))
ref('geom-hypot', 'C01 C25', (G, 'Dist = np.sqrt(Xrelative**2 + Yrelative**2)', 'Dist = np.hypot(Xrelative, Yrelative)'))
ref('geom-vector', 'C02 C25', (G, '''    YIntersects = np.zeros(IntPoints.size)
    for IntNo in range(IntPoints.size):
        YIntersects[IntNo] = (Polyline[IntPoints[IntNo],1] +
                              (Xcoord-Polyline[IntPoints[IntNo],0]) *
                              (Polyline[IntPoints[IntNo]+1,1] - Polyline[IntPoints[IntNo],1]) / 
                              (Polyline[IntPoints[IntNo]+1,0] - Polyline[IntPoints[IntNo],0]))
''', '''    From = Polyline[IntPoints]
    To = Polyline[IntPoints + 1]
    YIntersects = From[:,1] + (Xcoord - From[:,0]) * (To[:,1] - From[:,1]) / (To[:,0] - From[:,0])
'''))
ref('geom-list', 'C02', (G, '''    IntPoints = np.where(LeftOfX[0:-1] != LeftOfX[1:])[0]
''', '''    IntPoints = np.flatnonzero(np.logical_xor(LeftOfX[:-1], LeftOfX[1:]))
'''), (G, '''    YIntersects = np.zeros(IntPoints.size)
    for IntNo in range(IntPoints.size):
        YIntersects[IntNo] = (Polyline[IntPoints[IntNo],1] +
                              (Xcoord-Polyline[IntPoints[IntNo],0]) *
                              (Polyline[IntPoints[IntNo]+1,1] - Polyline[IntPoints[IntNo],1]) / 
                              (Polyline[IntPoints[IntNo]+1,0] - Polyline[IntPoints[IntNo],0]))
''', '''    YIntersects = []
    for Ix in IntPoints:
        (X0, Y0), (X1, Y1) = Polyline[Ix], Polyline[Ix+1]
        YIntersects.append(Y0 + (Xcoord - X0) / (X1 - X0) * (Y1 - Y0))
    YIntersects = np.array(YIntersects)
'''))

ref('coast-where', 'C03', (C, '''    LocalRelShoreDir = np.arctan((ShoreY[0:-1,0] - ShoreY[1:,0])/Dx)
''', '''    LocalRelShoreDir = -np.arctan(np.diff(ShoreY[:,0])/Dx)
'''), (C, '''    LocalWavePower = np.full(LocalEDir_h.size, WavePower)
    LocalWavePower[LocalEDir_h < (-np.pi/2)] = 0
    LocalWavePower[LocalEDir_h > (np.pi/2)] = 0
''', '''    LocalWavePower = np.where(np.abs(LocalEDir_h) <= np.pi/2, WavePower, 0.0)
'''))
ref('coast-mask', 'C03', (C, '''    LocalWavePower = np.full(LocalEDir_h.size, WavePower)
    LocalWavePower[LocalEDir_h < (-np.pi/2)] = 0
    LocalWavePower[LocalEDir_h > (np.pi/2)] = 0
''', '''    OffshoreDirected = np.logical_or(LocalEDir_h < -np.pi/2, LocalEDir_h > np.pi/2)
    LocalWavePower = WavePower * ~OffshoreDirected
'''), (C, '''    BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * np.minimum(C_b / C_h, 1.0))
    
    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
''', '''    SinBreakerAngle = np.sin(LocalEDir_h) * min(C_b / C_h, 1.0)
    
    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * SinBreakerAngle
'''))
ref('coast-runup', 'C04 C18', (C, '''    Runup = 0.49 * BeachSlope**0.5 * WavePeriod * Hs_offshore
''', '''    Runup = 0.49 * np.sqrt(BeachSlope) * (WavePeriod * Hs_offshore)
'''))
ref('coast-overtop', 'C04', (C, '''    OP = np.maximum(Runup + SeaLevel - ShoreZ[:,0], 0.0)
''', '''    OP = Runup + SeaLevel - ShoreZ[:,0]
    OP[OP < 0] = 0.0
'''), (C, '''    OutletPresent = ~np.isnan(ShoreY[:,1])
''', '''    OutletPresent = np.logical_not(np.isnan(ShoreY[:,1]))
'''), (C, '''    CrestWidth = np.maximum(ShoreY[:,0] - ShoreY[:,3], 0.001)
    CrestWidth[OutletPresent] = ShoreY[OutletPresent,0] - ShoreY[OutletPresent,1]
''', '''    CrestWidth = np.where(OutletPresent, ShoreY[:,0] - ShoreY[:,1], np.maximum(ShoreY[:,0] - ShoreY[:,3], 0.001))
'''), (C, '''    NoLagoon = ShoreY[:,3] <= ShoreY[:,4]
    NoLagoon[OutletPresent] = False
''', '''    NoLagoon = (ShoreY[:,3] <= ShoreY[:,4]) & ~OutletPresent
'''))

ref('bedload-where', 'C05 C18', (R, '''    Qs_node_bulk[V<0] *= -1
''', '''    Qs_node_bulk = np.where(V < 0, -Qs_node_bulk, Qs_node_bulk)
'''))
ref('bedload-sign', 'C05', (R, '''    qs_star = PhysicalPars['MPM_coef'] * np.maximum(Theta - PhysicalPars['CritShieldsStress'], 0.0)**PhysicalPars['MPM_exp']
    Qs_node_bulk = qs_star * B * ((RhoS/Rho - 1) * g * D**3)**0.5 / (1 - PhysicalPars['VoidRatio'])
    Qs_node_bulk[V<0] *= -1
''', '''    Excess = np.clip(Theta - PhysicalPars['CritShieldsStress'], 0.0, None)
    Scale = np.sqrt((RhoS/Rho - 1) * g * D**3) / (1 - PhysicalPars['VoidRatio'])
    Qs_node_bulk = np.sign(V) * PhysicalPars['MPM_coef'] * np.power(Excess, PhysicalPars['MPM_exp']) * B * Scale
'''))
ref('steady-helper', 'C06 C07', (R, '''    # iterate from d/s end
    for XS in range(ChanDep.size-2, -1, -1):
''', '''    # iterate from d/s end
    for XS in reversed(range(ChanDep.size-1)):
'''), (R, '''        DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
        CheckCount = 0
''', '''        Residual = lambda Dep: Dep + Acoef/Dep**2 - Bcoef*Dep**(-10/3) + Cconst
        DepErr = Residual(ChanDep[XS])
        CheckCount = 0
'''), (R, '''            ChanDep[XS] = np.maximum(ChanDep[XS] - DepErr/Gradient, 0.5*ChanDep[XS])
            DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
''', '''            ChanDep[XS] = np.maximum(ChanDep[XS] - DepErr/Gradient, ChanDep[XS]/2)
            DepErr = Residual(ChanDep[XS])
'''))
ref('steady-raise', 'C06', (R, '''            assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'
''', '''            if CheckCount >= MaxIt:
                raise AssertionError('Maximum iterations exceeded solving steady state water level')
'''), (R, '''        # Check for supercritical
        if ChanDep[XS] < CritDep[XS]:
            ChanDep[XS] = CritDep[XS]
            logging.warning('Steady state solution results in critical depth at XS%i' % XS)
''', '''        # Check for supercritical
        if ChanDep[XS] < CritDep[XS]:
            logging.warning('Steady state solution results in critical depth at XS%i' % XS)
        ChanDep[XS] = max(ChanDep[XS], CritDep[XS])
'''))
ref('preissmann-slices', 'C07', (R, 'Err[np.arange(1,2*N-1,2)]', 'Err[1:2*N-1:2]'), (R, 'Err[np.arange(2,2*N-1,2)]', 'Err[2:2*N-1:2]'),
    (R, '''            h -= Delta[np.arange(0,2*N,2)]
            V -= Delta[np.arange(1,2*N,2)]
''', '''            h -= Delta[0::2]
            V -= Delta[1::2]
'''), (R, '''            if np.all(np.abs(Delta) < Tol):
                break
''', '''            if np.max(np.abs(Delta)) < Tol:
                break
'''))
ref('preissmann-flow', 'C07', (R, '''        # For continuity equation
        C1 = (h_old[1:]*Be[1:] + h_old[:-1]*Be[:-1]
              - 2*(dtdx)*(1-Theta) * (V_old[1:]*A_old[1:] - V_old[:-1]*A_old[:-1])
''', '''        # For continuity equation
        Q_old = V_old * A_old
        Vol_old = h_old * Be
        C1 = (Vol_old[1:] + Vol_old[:-1]
              - 2*(dtdx)*(1-Theta) * np.diff(Q_old)
'''), (R, '''        while ItCount < MaxIt:
            
            # Error in Us Bdy
            Err[0] = A[0]*V[0]-Q
''', '''        Converged = False
        while ItCount < MaxIt and not Converged:
            
            # Error in Us Bdy
            Err[0] = A[0]*V[0]-Q
'''))
ref('preissmann-store', 'C07', (R, '''        V_old = V
        h_old = h
        Sf_old = Sf
        A_old = A
''', '''        (V_old, h_old, Sf_old, A_old) = (V, h, Sf, A)
'''), (R, '''    dx2 = np.zeros(z.size)
    dx2[0] = dx[0]/2
    dx2[1:-1] = (dx[:-1]+dx[1:])/2
    dx2[-1] = dx[-1]/2
''', '''    dx2 = np.concatenate([[dx[0]], dx[:-1]+dx[1:], [dx[-1]]]) / 2
'''))
ref('assemble-helper', 'C08 C09 C16 C18', (R, '''        if OutletEndX[0] < OutletEndX[1]:
            # Outlet angles from L to R
            OutletChanIx = np.where(np.logical_and(OutletEndX[0] <= ShoreX, 
                                                   ShoreX <= OutletEndX[1]))[0]
        else:
            # Outlet from R to L
            OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                             ShoreX <= OutletEndX[0]))[0])
        OutletWidth''', '''        OutletChanIx = outletTransects(ShoreX, OutletEndX)
        OutletWidth'''), (R, '''def storeHydraulics(''', '''def outletTransects(ShoreX, OutletEndX):
    """ Transects crossed by the outlet channel, in order from lagoon to sea """
    Ix = np.flatnonzero((ShoreX >= min(OutletEndX)) & (ShoreX <= max(OutletEndX)))
    if OutletEndX[0] >= OutletEndX[1]:
        Ix = Ix[::-1]
    return Ix

def storeHydraulics('''))
ref('assemble-arrays', 'C08 C09', (R, '''    X0Ix = np.where(ShoreX==0)[0][0] # Index of shore transect where X=0 (i.e. inline with river)
''', '''    X0Ix = np.argmin(np.abs(ShoreX)) # Index of shore transect where X=0 (i.e. inline with river)
'''), (R, '''        ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                   np.full(OnlineLagoon.size, 1), 
                                   np.full(OutletChanIx.size, 2), [3,4]])
''', '''        ChanFlag = np.repeat([0, 1, 2, 3, 4], [RiverElev.size, OnlineLagoon.size, OutletChanIx.size, 1, 1])
'''), (R, '''        if np.any(OutletWidth<=PhysicalPars['MinOutletWidth']) | (OutletEndWidth<=PhysicalPars['MinOutletWidth']):
''', '''        if min(OutletWidth.min(), OutletEndWidth) <= PhysicalPars['MinOutletWidth']:
'''), (R, '''        OutletWidth[np.isnan(OutletWidth)] = 0.
''', '''        OutletWidth = np.nan_to_num(OutletWidth)
'''), (R, '''    LagLen = (ChanFlag==1) * Dx
''', '''    LagLen = np.where(ChanFlag==1, Dx, 0.0)
'''))
ref('assemble-area', 'C08', (R, '''    LagArea = np.zeros(ChanElev.size)
    LagArea[RiverElev.size] += StartArea
    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
''', '''    LagArea = np.zeros_like(ChanElev)
    FirstLag = np.flatnonzero(ChanFlag == 1)[0]
    LastLag = np.flatnonzero(ChanFlag == 1)[-1]
    LagArea[FirstLag] = StartArea
    LagArea[LastLag] = LagArea[LastLag] + EndArea
'''), (R, '''        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
''', '''        StartArea = np.sum(LagoonWidth[X0Ix+1:]) * Dx
        StartLen = np.count_nonzero(LagoonWidth[X0Ix+1:] > 0) * Dx
'''), (R, '''        LagCloseIx = np.where(LagoonWidth[OnlineLagoon] < PhysicalPars['MinOutletWidth'])[0][0]
''', '''        LagCloseIx = np.argmax(LagoonWidth[OnlineLagoon] < PhysicalPars['MinOutletWidth'])
'''))
ref('store-hyd', 'C09 C18', (R, '''    LagoonWL = LagoonElev.copy()
    LagoonWL[OnlineLagoon] += ChanDep[ChanFlag==1]
    MinOnline = np.min(OnlineLagoon)
    MaxOnline = np.max(OnlineLagoon)
    LagoonWL[:MinOnline] = LagoonWL[MinOnline]
    LagoonWL[MaxOnline+1:] = LagoonWL[MaxOnline]
''', '''    OnlineWL = LagoonElev[OnlineLagoon] + ChanDep[ChanFlag==1]
    if OnlineLagoon[0] > OnlineLagoon[-1]:
        OnlineWL = OnlineWL[::-1]
    Offset = OnlineLagoon.min()
    LagoonWL = OnlineWL[np.clip(np.arange(LagoonElev.size) - Offset, 0, OnlineWL.size - 1)]
'''), (R, '''        EndNodes = np.logical_or(ChanFlag==3, ChanFlag==4)
''', '''        EndNodes = np.isin(ChanFlag, [3, 4])
'''), (R, '''    OutletDep = np.full(LagoonElev.size, np.nan)
    OutletVel = np.full(LagoonElev.size, np.nan)
    if Closed:
        OutletEndDep''', '''    OutletDep = np.full_like(LagoonElev, np.nan)
    OutletVel = OutletDep.copy()
    if Closed:
        OutletEndDep'''))
ref('store-bedload', 'C09 C18', (R, '''        OutletBedload[OutletChanIx] = Bedload[ChanFlag[:-1]==2]
        OutletEndBedload = Bedload[ChanFlag[:-1]==3]
        LagoonBedload[OnlineLagoon] = Bedload[ChanFlag[:-1]==1]
''', '''        Flag = ChanFlag[:-1]
        LagoonBedload[OnlineLagoon] = Bedload[Flag==1]
        OutletBedload[OutletChanIx] = Bedload[Flag==2]
        OutletEndBedload = Bedload[Flag==3]
'''))

ref('mor-limit', 'C10 C11 C12 C31 C32', (M, '''        RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
        ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
        ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
        OutletEndWideningRate = np.minimum(np.maximum(OutletEndWideningRate, -MorChangeRateLimit), MorChangeRateLimit)
''', '''        RivBedAggRate = np.clip(RivBedAggRate, -MorChangeRateLimit, MorChangeRateLimit)
        ShoreYChangeRate = np.clip(ShoreYChangeRate, -MorChangeRateLimit, MorChangeRateLimit)
        ShoreZChangeRate = np.clip(ShoreZChangeRate, -MorChangeRateLimit, MorChangeRateLimit)
        OutletEndWideningRate = np.clip(OutletEndWideningRate, -MorChangeRateLimit, MorChangeRateLimit)
'''), (M, '''    MaxMorChangeRate = max(np.max(np.abs(RivBedAggRate)),
                           np.max(np.abs(ShoreYChangeRate)),
                           np.max(np.abs(ShoreZChangeRate)),
                           abs(OutletEndWideningRate),
                           abs(OutletEndAggRate),
                           abs(OutletEndXMoveRate))
''', '''    AllRates = np.concatenate([np.ravel(Rate) for Rate in (RivBedAggRate, ShoreYChangeRate, ShoreZChangeRate,
                                                           OutletEndWideningRate, OutletEndAggRate, OutletEndXMoveRate)])
    MaxMorChangeRate = np.abs(AllRates).max()
'''))
ref('mor-dt', 'C10 C12 C13 C31 C32', (M, '''    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
''', '''    Seconds = MorDt.total_seconds()
    RiverElev[1:] = RiverElev[1:] + RivBedAggRate * Seconds
    ShoreZ[:,:] += ShoreZChangeRate * Seconds
    np.add(ShoreY, ShoreYChangeRate * Seconds, out=ShoreY)
'''))
ref('mor-ero', 'C10 C11 C15 C31 C32', (M, '''    EroVolRate = - np.minimum(DVolRate, 0.0)  # Total volumetric erosion rate (+ve = erosion)
    BedEroRate = EroVolRate * TooWide       # Bed erosion volumetric rate (+ve)
    BankEroRate = EroVolRate * np.logical_not(TooWide) # Bank erosion volumetric rate (+ve)
    BedDepRate = np.maximum(DVolRate, 0.0)  # Bed deposition volumetric rate (+ve)
''', '''    EroVolRate = np.where(DVolRate < 0, -DVolRate, 0.0)  # Total volumetric erosion rate (+ve = erosion)
    BedEroRate = np.where(TooWide, EroVolRate, 0.0)
    BankEroRate = EroVolRate - BedEroRate
    BedDepRate = DVolRate + EroVolRate
'''), (M, '''        if LST[OutletRbShoreIx-1]>0:
            # Transport from L to R
''', '''        ToRight = LST[OutletRbShoreIx-1] > 0
        if ToRight:
            # Transport from L to R
'''))
ref('mor-cst', 'C11 C13 C31 C32', (M, '''    ShoreYChangeRate[~OutletPresent,3] -= OverwashProp[~OutletPresent] * CST_tot[~OutletPresent] / BackBarHeight[~OutletPresent]
    ShoreYChangeRate[OutletPresent,1] -= OverwashProp[OutletPresent] * CST_tot[OutletPresent] / BackBarHeight[OutletPresent]
''', '''    BackRate = OverwashProp * CST_tot / BackBarHeight
    ShoreYChangeRate[:,3] -= np.where(OutletPresent, 0.0, BackRate)
    ShoreYChangeRate[:,1] -= np.where(OutletPresent, BackRate, 0.0)
'''), (M, '''    ShoreYChangeRate[1:-1,0] += (LST[:-1] - LST[1:]) / (ShorefaceHeight[1:-1] * Dx)
''', '''    ShoreYChangeRate[1:-1,0] -= np.diff(LST) / (ShorefaceHeight[1:-1] * Dx)
'''))
ref('mor-ends', 'C11 C13 C15 C31 C32', (M, '''    if OutletEndX[1] < ShoreX[1]:
        logging.warning('Left (negative X) end of outlet channel too close to edge of domain - preventing further migration')
        OutletEndX[1] = ShoreX[1]
    if OutletEndX[1] > ShoreX[-2]:
        logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
        OutletEndX[1] = ShoreX[-2]
''', '''    if not Closed or not np.isnan(OutletEndX[1]):
        if not ShoreX[1] <= OutletEndX[1] <= ShoreX[-2]:
            logging.warning('End of outlet channel too close to edge of domain - preventing further migration')
            OutletEndX[1] = min(max(OutletEndX[1], ShoreX[1]), ShoreX[-2])
'''))
ref('mor-index', 'C13 C14 C15 C31 C32', (M, '''            # Update OutletChanIx as it has changed and its used later in this function
            if OutletEndX[0] < OutletEndX[1]:
                OutletChanIx = np.where(np.logical_and(OutletEndX[0] <= ShoreX, 
                                                       ShoreX <= OutletEndX[1]))[0]
            else:
                OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                 ShoreX <= OutletEndX[0]))[0])
''', '''            # Update OutletChanIx as it has changed and its used later in this function
            OutletChanIx = outletIx(ShoreX, OutletEndX)
'''), (M, '''def cliffCollision(''', '''def outletIx(ShoreX, OutletEndX):
    Mask = (np.minimum(OutletEndX[0], OutletEndX[1]) <= ShoreX) & (ShoreX <= np.maximum(OutletEndX[0], OutletEndX[1]))
    Ix, = np.nonzero(Mask)
    return Ix if OutletEndX[0] < OutletEndX[1] else Ix[::-1]

def cliffCollision('''), (M, '''    X0Ix = np.where(ShoreX==0)[0][0]
    
    # Find''', '''    X0Ix = np.argwhere(ShoreX == 0)[0, 0]
    
    # Find'''))
ref('mor-cliff-loop', 'C13 C11 C31 C32', (M, '''    CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
    if np.any(CliffCollision):
        logging.info('Shoreline/cliff collision - retreating cliff at X = %s', ShoreX[CliffCollision])
        CliffOverlapDist = (ShoreY[CliffCollision,4] - ShoreY[CliffCollision,0]) + 0.001
        CliffRetDist = (CliffOverlapDist / 
                        (1 + ((PhysicalPars['BackshoreElev'] - ShoreZ[CliffCollision,0]) / 
                              ShorefaceHeight[CliffCollision])))
        ShoreY[CliffCollision, 4] -= CliffRetDist
        ShoreY[CliffCollision, 3] = ShoreY[CliffCollision, 4]
        ShoreY[CliffCollision, 0] += (CliffOverlapDist - CliffRetDist)
''', '''    for Ix in range(ShoreX.size):
        Overlap = ShoreY[Ix,4] - ShoreY[Ix,0]
        if Overlap < 0:
            continue
        logging.info('Shoreline/cliff collision - retreating cliff at X = %s', ShoreX[Ix])
        Overlap += 0.001
        Retreat = Overlap / (1 + (PhysicalPars['BackshoreElev'] - ShoreZ[Ix,0]) / ShorefaceHeight[Ix])
        ShoreY[Ix,4] -= Retreat
        ShoreY[Ix,3] = ShoreY[Ix,4]
        ShoreY[Ix,0] += Overlap - Retreat
'''))
ref('mor-breach', 'C13 C14 C15 C31 C32', (M, '''            ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])
            BreachIx = PossBreachTsects[np.argmin(ChanLength)]
''', '''            BreachIx = min(PossBreachTsects, key=lambda Ix: abs(ShoreX[Ix] - OutletEndX[0]))
'''), (M, '''        PossBreachTsects = []
        for TsectIx in EroTsects:
            logging.info('Barrier completely eroded at X = %.1fm' % ShoreX[TsectIx])
            if TsectIx > X0Ix:
                if np.all(LagoonOpen[np.arange(X0Ix+1, TsectIx+1)]):
                    PossBreachTsects.append(TsectIx)
            elif TsectIx < X0Ix:
                if np.all(LagoonOpen[np.arange(TsectIx, X0Ix)]):
                    PossBreachTsects.append(TsectIx)
            else: # TsectIx == X0Ix
                PossBreachTsects.append(TsectIx)
''', '''        PossBreachTsects = []
        for TsectIx in EroTsects:
            logging.info('Barrier completely eroded at X = %.1fm' % ShoreX[TsectIx])
            Between = LagoonOpen[X0Ix+1:TsectIx+1] if TsectIx > X0Ix else LagoonOpen[TsectIx:X0Ix]
            if Between.all():
                PossBreachTsects.append(TsectIx)
'''), (M, '''            NotBreachIx = EroTsects[EroTsects != BreachIx]
''', '''            NotBreachIx = np.setdiff1d(EroTsects, [BreachIx])
'''))
ref('mor-barrier', 'C13 C14 C31 C32', (M, '''            ShoreY[NotBreachIx,4] = np.minimum(ShoreY[NotBreachIx,4], ShoreY[NotBreachIx,3])
''', '''            for Ix in NotBreachIx:
                if ShoreY[Ix,4] > ShoreY[Ix,3]:
                    ShoreY[Ix,4] = ShoreY[Ix,3]
'''), (M, '''    CrestHeight = ShoreZ[:,0].copy() # default
    CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
''', '''    CrestHeight = ShoreZ[:,0].copy() # default
    CrestHeight[OutletPresent] = np.maximum(ShoreZ[OutletPresent,0], ShoreZ[OutletPresent,2])
'''))

ref('out-loop', 'C16 C24', (O, '''    NcFile.variables['shoreline_y'][TimeIx,:] = ShoreY[:,0]
    NcFile.variables['outlet_bank1_y'][TimeIx,:] = ShoreY[:,1]
    NcFile.variables['outlet_bank2_y'][TimeIx,:] = ShoreY[:,2]
    NcFile.variables['lagoon_y'][TimeIx,:] = ShoreY[:,3]
    NcFile.variables['cliff_y'][TimeIx,:] = ShoreY[:,4]
''', '''    for (Ix, Name) in enumerate(['shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y']):
        NcFile.variables[Name][TimeIx,:] = ShoreY[:,Ix]
'''), (O, '''    TimeVar = NcFile.variables['time']
    TimeIx = TimeVar.size
    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime, TimeVar.units)
    
    # Append data to boundary condition variables
    NcFile.variables['sea_level'][TimeIx] = SeaLevel
    NcFile.variables['river_flow'][TimeIx] = RivFlow
    NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore
    NcFile.variables['wave_dir'][TimeIx] = EDir_h
    
    # Append new data to shore''', '''    TimeVar = NcFile.variables['time']
    TimeIx = len(TimeVar)
    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime, TimeVar.units)
    
    # Append data to boundary condition variables
    Bdy = {'sea_level': SeaLevel, 'river_flow': RivFlow, 'hs_offshore': Hs_offshore, 'wave_dir': EDir_h}
    for Name in Bdy:
        NcFile.variables[Name][TimeIx] = Bdy[Name]
    
    # Append new data to shore'''))
ref('out-read', 'C16 C24', (O, '''    ShoreY = np.empty((NTransects, 5))
    ShoreY[:,0] = NcFile.variables['shoreline_y'][TimeIx,:]
    ShoreY[:,1] = NcFile.variables['outlet_bank1_y'][TimeIx,:]
    ShoreY[:,2] = NcFile.variables['outlet_bank2_y'][TimeIx,:]
    ShoreY[:,3] = NcFile.variables['lagoon_y'][TimeIx,:]
    ShoreY[:,4] = NcFile.variables['cliff_y'][TimeIx,:]
''', '''    Var = NcFile.variables
    ShoreY = np.full((NTransects, 5), np.nan)
    for (Col, Name) in enumerate(('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y')):
        ShoreY[:,Col] = Var[Name][TimeIx,:]
'''), (O, '''    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0][:1]
''', '''    TimeIx = np.array([np.argmin(TimeDiffs)])
'''))
ref('out-with', 'C16', (O, '''    NcFile.variables['lagoon_level'][TimeIx] = MeanLagoonWl
    NcFile.variables['lagoon_outflow'][TimeIx] = LagOutflow             
''', '''    Variables = NcFile.variables
    Variables['lagoon_level'][TimeIx] = MeanLagoonWl
    Variables['lagoon_outflow'][TimeIx] = LagOutflow
'''))
ref('out-confirm', 'C17', (O, '''    if os.path.isfile(FileName):
        if not Overwrite:
            Confirm = input('Confirm ok to overwrite "%s" (y/n):' % FileName)
            Overwrite = Confirm in ['Y', 'y', 'Yes', 'yes', 'YES']
        
        if Overwrite:
            os.remove(FileName)
            logging.info('Overwriting output file "%s"' % FileName)
        else:
            raise Exception('Conflict with existing output file "%s"' % FileName)
    else:
        logging.info('Creating new output file "%s"' % FileName)
    
    # create new empty netcdf file and open it for writing
    NcFile = netCDF4.Dataset(FileName, mode='w', format='NETCDF4_CLASSIC') 
    
    # create dimensions
    XDim''', '''    prepareFile(FileName, Overwrite)
    
    # create new empty netcdf file and open it for writing
    NcFile = netCDF4.Dataset(FileName, mode='w', format='NETCDF4_CLASSIC') 
    
    # create dimensions
    XDim'''), (O, '''def newTsOutFile(''', '''def prepareFile(FileName, Overwrite):
    """ Make sure there is no file in the way """
    if not os.path.exists(FileName):
        logging.info('Creating new output file "%s"' % FileName)
        return
    if not (Overwrite or input('Confirm ok to overwrite "%s" (y/n):' % FileName) in ('Y', 'y', 'Yes', 'yes', 'YES')):
        raise Exception('Conflict with existing output file "%s"' % FileName)
    os.remove(FileName)
    logging.info('Overwriting output file "%s"' % FileName)

def newTsOutFile('''))

ref('core-interp', 'C18 C19', (K, '''    FromIx = np.where(Df.index <= New_idxs[0])[0][-1]
    ToIx = np.append(np.where(Df.index >= New_idxs[-1])[0], len(Df)-1)[0]
    Selected = Df[FromIx:ToIx+1]
    Selected = Selected.reindex(Selected.index.append(New_idxs).unique())
    Selected = Selected.sort_index()
    Selected = Selected.interpolate(method='time')
    return Selected.loc[New_idxs]
''', '''    FromIx = np.flatnonzero(Df.index <= New_idxs[0])[-1]
    After = np.flatnonzero(Df.index >= New_idxs[-1])
    ToIx = After[0] if After.size > 0 else len(Df) - 1
    Selected = Df.iloc[FromIx:ToIx+1]
    AllTimes = Selected.index.union(New_idxs)
    return Selected.reindex(AllTimes).interpolate(method='time').loc[New_idxs]
'''))
ref('core-waves', 'C18', (K, '''        EDir_h = WavesAtT.EDir_h[0]
        WavePower = WavesAtT.WavePower[0]
        WavePeriod = WavesAtT.WavePeriod[0]
''', '''        EDir_h = WavesAtT['EDir_h'].iloc[0]
        WavePower = WavesAtT['WavePower'].values[0]
        WavePeriod = WavesAtT.WavePeriod[0]
'''), (K, '''        if MorDt > TimePars['EndTime'] - MorTime:
            MorDt = TimePars['EndTime'] - MorTime
''', '''        MorDt = min(MorDt, TimePars['EndTime'] - MorTime)
'''))
ref('core-helper', 'C18', (K, '''        RivFlow = interpolate_at(FlowTs, HydTimes).values
        SeaLevel = interpolate_at(SeaLevelTs, HydTimes).values
        
        try:
''', '''        (RivFlow, SeaLevel) = [interpolate_at(Ts, HydTimes).to_numpy() for Ts in (FlowTs, SeaLevelTs)]
        
        try:
'''))

ref('load-straight', 'C20', (L, '''        ShoreY[LagoonMask, 1] = -PhysicalPars['SpitWidth']
        ShoreY[LagoonMask, 2] = ShoreY[LagoonMask,1] - IniCond['OutletWidth']
        
        ShoreZ[LagoonMask, 1] = (IniCond['OutletBed'] + IniCond['LagoonBed'])/2
        ShoreZ[LagoonMask, 2] = ShoreZ[LagoonMask, 0]
''', '''        X0Ix = np.where(ShoreX == 0)[0][0]
        SeawardBank = -PhysicalPars['SpitWidth']
        ShoreY[X0Ix, 1:3] = [SeawardBank, SeawardBank - IniCond['OutletWidth']]
        
        ShoreZ[X0Ix, 1] = np.mean([IniCond['OutletBed'], IniCond['LagoonBed']])
        ShoreZ[X0Ix, 2] = ShoreZ[X0Ix, 0]
'''), (L, '''        RiverElev = np.flipud(IniCond['LagoonBed']
                              + PhysicalPars['RiverSlope']
                              * np.arange(0, PhysicalPars['UpstreamLength'], Dx))
''', '''        RiverDist = np.arange(0, PhysicalPars['UpstreamLength'], Dx)
        RiverElev = (IniCond['LagoonBed'] + PhysicalPars['RiverSlope'] * RiverDist)[::-1]
'''))
ref('load-trim', 'C21 C22 C23 C24', (L, '''    KeepTimes = np.zeros(FlowTs.shape[0], dtype=bool)
    KeepTimes[:-1] = FlowTs.index[1:] > TimePars['StartTime']
    KeepTimes[1:] = FlowTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
    FlowTs = FlowTs[KeepTimes]
''', '''    FlowTs = trimSeries(FlowTs, TimePars)
'''), (L, '''class ConfigError(''', '''def trimSeries(Ts, TimePars):
    """ Drop the part of a timeseries beyond the longest possible run """
    Last = TimePars['EndTime'] + TimePars['MorDtMax']
    Keep = np.full(len(Ts), False)
    Keep[:-1] = Ts.index[1:] > TimePars['StartTime']
    Keep[1:] = Ts.index[:-1] < Last
    return Ts.loc[Keep]

class ConfigError('''))
ref('load-times', 'C20 C24 C30', (L, """    TimePars = {'StartTime': pd.to_datetime(Config['Time']['StartTime']),
                'EndTime': pd.to_datetime(Config['Time']['EndTime']),
                'HydDt': pd.Timedelta(seconds=Config['Time']['HydDt']),
                'MorDtMin': pd.Timedelta(seconds=Config['Time']['MorDtMin']),
                'MorDtMax': pd.Timedelta(seconds=Config['Time']['MorDtMax'])}
""", """    TimeConfig = Config['Time']
    TimePars = dict((Key, pd.to_datetime(TimeConfig[Key])) for Key in ('StartTime', 'EndTime'))
    for Key in ['HydDt', 'MorDtMin', 'MorDtMax']:
        TimePars[Key] = pd.Timedelta(TimeConfig[Key], unit='s')
"""), (L, """                  'OutInt': pd.Timedelta(seconds=Config['OutputOptions']['OutInt']),
                  'TsOutInt': pd.Timedelta(seconds=Config['OutputOptions']['TsOutInt']),
                  'LogInt': pd.Timedelta(seconds=Config['OutputOptions']['LogInt']),
                  'PlotInt': pd.Timedelta(seconds=Config['OutputOptions']['PlotInt'])}
""", """                  }
    OutputOpts.update({Key: pd.Timedelta(seconds=Config['OutputOptions'][Key])
                       for Key in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt')})
"""))
ref('load-validate', 'C20 C21 C30', (L, """    validator = Validator()
    ValidationResult = Config.validate(validator)
    if ValidationResult != True:
        for (section_list, key, _) in flatten_errors(Config, ValidationResult):
""", """    ValidationResult = Config.validate(Validator())
    if ValidationResult is not True:
        Errors = flatten_errors(Config, ValidationResult)
        for (section_list, key, _) in Errors:
"""), (L, """    GammaLST = ((PhysicalPars['RhoSed'] - PhysicalPars['RhoSea']) * 
                PhysicalPars['Gravity'] * (1 - PhysicalPars['VoidRatio']))
    
    PhysicalPars['K2coef'] = PhysicalPars['Kcoef'] / GammaLST
    PhysicalPars['BreakerCoef'] = 8.0 / (PhysicalPars['RhoSea'] *
                                         PhysicalPars['Gravity']**1.5 *
                                         PhysicalPars['GammaRatio']**2.0)
""", """    SubmergedWeight = ((PhysicalPars['RhoSed'] - PhysicalPars['RhoSea']) * 
                       PhysicalPars['Gravity'])
    
    PhysicalPars['K2coef'] = (PhysicalPars['Kcoef'] / SubmergedWeight 
                              / (1.0 - PhysicalPars['VoidRatio']))
    PhysicalPars['BreakerCoef'] = (8.0 / PhysicalPars['RhoSea'] 
                                   / PhysicalPars['Gravity']**1.5 / PhysicalPars['GammaRatio']**2.0)
"""))
ref('spec-text', 'C30', ('hapuamod/configspec.cnf', """VoidRatio = float(min=0, max=1, default=0.3)
Gravity = float(min=0, default=9.81)
""", """Gravity = float(0, default=9.81)
# pore volume over total volume
VoidRatio = float(0, 1, default=0.3)
"""), ('hapuamod/configspec.cnf', "MaxIt = integer(min=1, default=30)", "MaxIt = integer(1, default=30)"))
ref('load-angle', 'C21 C24', (L, '''    WaveTs.EDir_h = np.deg2rad(WaveTs.EDir_h) - (ShoreNormDir)
    # Make sure all wave angles are in the range -pi to +pi
    WaveTs.EDir_h = np.mod(WaveTs.EDir_h + np.pi, 2.0 * np.pi) - np.pi 
''', '''    RelDir = np.radians(WaveTs['EDir_h']) - ShoreNormDir
    WaveTs['EDir_h'] = (RelDir + np.pi) % (2.0 * np.pi) - np.pi
'''))
ref('load-shape', 'C25', (L, '''        IniShoreCoords2 = np.empty(IniShoreCoords.shape)
        (IniShoreCoords2[:,0], IniShoreCoords2[:,1]) = geom.real2mod(IniShoreCoords[:,0], IniShoreCoords[:,1], Origin, ShoreNormDir)
''', '''        toModel = lambda XY: np.column_stack(geom.real2mod(XY[:,0], XY[:,1], Origin, ShoreNormDir))
        IniShoreCoords2 = toModel(IniShoreCoords)
'''), (L, '''        LagoonExtent = [np.amin(LagoonCoords2[:,0]), np.amax(LagoonCoords2[:,0])]
''', '''        LagoonExtent = [LagoonCoords2[:,0].min(), LagoonCoords2[:,0].max()]
'''), (L, '''            if LagoonExtent[0] < ShoreX[ii] < LagoonExtent[1]:
''', '''            if ShoreX[ii] > LagoonExtent[0] and ShoreX[ii] < LagoonExtent[1]:
'''), (L, '''        BedLevel = np.linspace(IniCond['LagoonBed'], IniCond['OutletBed'], np.sum(OutletMask)+1)
        if OutletToR:
            ShoreZ[OutletMask, 1] = BedLevel[:-1]
        else:
            ShoreZ[OutletMask, 1] = np.flipud(BedLevel[:-1])
        OutletEndElev = np.asarray(BedLevel[-1])
''', '''        NOutlet = np.count_nonzero(OutletMask)
        BedLevel = IniCond['LagoonBed'] + (IniCond['OutletBed'] - IniCond['LagoonBed']) * np.arange(NOutlet) / NOutlet
        ShoreZ[OutletMask, 1] = BedLevel if OutletToR else BedLevel[::-1]
        OutletEndElev = np.asarray(IniCond['OutletBed'])
'''))
ref('load-hot', 'C24', (L, '''        ShoreX = np.asarray(ShoreX, dtype=float)
        RiverElev = np.asarray(RiverElev, dtype=float)
        OutletEndX = np.asarray(OutletEndX, dtype=float)
''', '''        (ShoreX, RiverElev, OutletEndX) = [np.array(V, dtype=np.float64) for V in (ShoreX, RiverElev, OutletEndX)]
'''))
ref('synth-tide', 'C22', (S, '''    OutputVals = (MeanSeaLevel + (TidalRange / 2) * 
                  np.sin(((OutputTimes - StartDate).total_seconds() / TidePeriod) * 2*np.pi))
''', '''    Elapsed = (OutputTimes - StartDate).total_seconds().values
    Phase = 2 * np.pi * Elapsed / TidePeriod
    OutputVals = MeanSeaLevel + 0.5 * TidalRange * np.sin(Phase)
'''))
ref('synth-concat', 'C23', (S, '''        OutputTs = OutputTs.append(pd.Series(TotVals, index = TimeList))
''', '''        OutputTs = pd.concat([OutputTs, pd.Series(TotVals, index = TimeList)])
'''), (S, '''    EventRate = 1 / (MeanTimeBetweenEvents.total_seconds() / 86400)
''', '''    MeanGap = MeanTimeBetweenEvents / pd.Timedelta(days=1)
    EventRate = 1 / MeanGap
'''), (S, '''        DaysSinceLastEvent = (TimeList - LastEventTime).total_seconds().values / 86400
''', '''        DaysSinceLastEvent = np.asarray((TimeList - LastEventTime).total_seconds()) / 86400
'''))


W = 'preprocessing/WaveDataFromSwanOutput.py'
ref('wave-where', 'C26', (W, '''WaveData['OnshoreWaves'] = np.abs(WaveData['Angle_h']) < np.pi/2
WaveData.loc[WaveData['OnshoreWaves']==False,'Hsig'] = 0
WaveData.loc[WaveData['OnshoreWaves']==False,'Angle_h'] = 0
''', '''WaveData['OnshoreWaves'] = WaveData['Angle_h'].abs() < np.pi/2
WaveData['Hsig'] = np.where(WaveData['OnshoreWaves'], WaveData['Hsig'], 0)
WaveData['Angle_h'] = WaveData['Angle_h'].where(WaveData['OnshoreWaves'], 0)
'''), (W, '''OutputData['WavePower'] = 1025 * 9.81 * np.sqrt(np.power(WaveData['XTransp'],2) + 
                                                np.power(WaveData['YTransp'],2))
''', '''OutputData['WavePower'] = 1025 * 9.81 * np.hypot(WaveData['XTransp'], WaveData['YTransp'])
'''))
ref('wave-direct', 'C26', (W, '''OutputData['EDir_h'] = np.rad2deg(np.arctan2(WaveData['XTransp'], WaveData['YTransp']))-180
OutputData['EDir_h'] = OutputData['EDir_h'] % 360
''', '''OutputData['EDir_h'] = np.mod(np.degrees(np.arctan2(-WaveData['XTransp'], -WaveData['YTransp'])), 360)
'''), (W, '''WaveData['Angle_Offshore'] = np.arcsin(np.maximum(np.minimum(WaveData['LoffRatio'] * 
                                                             np.sin(WaveData['Angle_h']), 
                                                             1.0), -1.0)) # min and max is to prevent tiny irregularities generating complex numbers due to calculation of asin(>1) or asin(<-1)
''', '''WaveData['Angle_Offshore'] = np.arcsin(np.clip(WaveData['LoffRatio'] * np.sin(WaveData['Angle_h']), -1.0, 1.0))
'''))
ref('wave-vars', 'C26', (W, '''# wave number (k) and ratio of group speed (celerity) to wave speed (n) (both calculated at 10m)
WaveData['k_h'] = 2.0 * np.pi / WaveData['Wlen_h']
WaveData['n_h'] = 0.5 * (1.0 + 2.0 * WaveData['k_h'] * WaveData['Depth'] / 
                         np.sinh(2.0 * WaveData['k_h'] * WaveData['Depth']))
''', '''def groupRatio(Wlen, Depth):
    KD2 = 4.0 * np.pi * Depth / Wlen
    return 0.5 + 0.5 * KD2 / np.sinh(KD2)

WaveData['n_h'] = groupRatio(WaveData.Wlen_h, WaveData.Depth)
'''), (W, '''OutputData['Hsig_Offshore'] = (WaveData['Hsig'] / 
                               np.sqrt(0.5 / WaveData['n_h'] * WaveData['LoffRatio'] * 
                                       (np.cos(WaveData['Angle_Offshore']) / 
                                        np.cos(WaveData['Angle_h']))))
''', '''ShoalingSq = 2 * WaveData['n_h'] / WaveData['LoffRatio']
RefractionSq = np.cos(WaveData['Angle_h']) / np.cos(WaveData['Angle_Offshore'])
OutputData['Hsig_Offshore'] = WaveData['Hsig'] * np.sqrt(ShoalingSq * RefractionSq)
'''))
ref('wave-times', 'C26', (W, '''WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:6].rename(columns={'Min': 'Minute'}))
WaveData = WaveData.set_index('DateTime')
''', '''TimeParts = WaveData[['Year', 'Month', 'Day', 'Hour', 'Min']].copy()
TimeParts.columns = ['Year', 'Month', 'Day', 'Hour', 'Minute']
WaveData.index = pd.to_datetime(TimeParts)
WaveData.index.name = 'DateTime'
'''), (W, '''OutputData = WaveData.loc[:,['WavePeriod','Wlen_h']]
''', '''OutputData = WaveData[['WavePeriod','Wlen_h']].copy()
'''))


V, A = 'hapuamod/visualise.py', 'hapuamod/animate.py'
ref('vis-section', 'C27 C29', (V, '''    # Calculate required variables to plot
    g = 9.81
    Dist = np.insert(np.cumsum(ChanDx),0,0)
    D2 = (Dist[:-1]+Dist[1:])/2
    WL = ChanElev + ChanDep
    WL2 = (WL[:-1] + WL[1:])/2
    Vel2 = (ChanVel[:-1] + ChanVel[1:]) / 2
    Energy = WL2 + (Vel2**2) / (2*g)
    Fr = abs(ChanVel) / np.sqrt(g * ChanDep)
    Q = ChanVel * ChanDep * ChanWidth
''', '''    # Calculate required variables to plot
    Gravity = 9.81
    midpoints = lambda v: 0.5 * (v[1:] + v[:-1])
    Dist = np.hstack([0, np.cumsum(ChanDx)])
    D2 = midpoints(Dist)
    WL = ChanDep + ChanElev
    Energy = midpoints(WL) + np.square(midpoints(ChanVel)) / Gravity / 2
    Fr = np.abs(ChanVel) / np.sqrt(Gravity * ChanDep)
    Q = ChanWidth * ChanDep * ChanVel
'''), (V, '''    LongSecFig['BedLine'].set_data(Dist, ChanElev)
    LongSecFig['WaterLine'].set_data(Dist, WL)
    LongSecFig['EnergyLine'].set_data(D2, Energy)
    LongSecFig['WidthLine'].set_data(Dist, ChanWidth)
    LongSecFig['FlowLine'].set_data(Dist, Q)
    LongSecFig['VelLine'].set_data(Dist, ChanVel)
    LongSecFig['FrLine'].set_data(Dist, Fr)
''', '''    for (Name, Values) in (('BedLine', ChanElev), ('WaterLine', WL), ('WidthLine', ChanWidth),
                           ('FlowLine', Q), ('VelLine', ChanVel), ('FrLine', Fr)):
        LongSecFig[Name].set_data(Dist, Values)
    LongSecFig['EnergyLine'].set_xdata(D2)
    LongSecFig['EnergyLine'].set_ydata(Energy)
'''))
ref('vis-transect', 'C27 C29', (V, '''    if np.isnan(TransY[2]):
        GroundLineX.append(TransY[3])
        GroundLineY.append(TransZ[0])
    else:
        GroundLineX.extend(TransY[[1,1,2,2,3]])
        GroundLineY.extend(TransZ[[0,1,1,2,2]])
        WaterLineX.extend(TransY[[1,2]])
        WaterLineY.extend([TransOutletWL, TransOutletWL])
''', '''    HasChannel = not np.isnan(TransY[2])
    if HasChannel:
        GroundLineX += [TransY[1], TransY[1], TransY[2], TransY[2]]
        GroundLineY += [TransZ[0], TransZ[1], TransZ[1], TransZ[2]]
        WaterLineX += list(TransY[1:3])
        WaterLineY += [TransOutletWL] * 2
    GroundLineX.append(TransY[3])
    GroundLineY.append(TransZ[2] if HasChannel else TransZ[0])
'''), (V, '''    TransectFig['GroundLine'].set_data(GroundLineX, GroundLineY)
    TransectFig['GroundFill'].set_xy(np.vstack([GroundFillX, GroundFillY]).T)
''', '''    TransectFig['GroundLine'].set_data(np.array(GroundLineX), np.array(GroundLineY))
    TransectFig['GroundFill'].set_xy(np.stack([GroundFillX, GroundFillY], axis=1))
'''), (V, '''    TransectIx = np.argmin(np.abs(ShoreX - TransectX))
''', '''    Offset = abs(ShoreX - TransectX)
    TransectIx = np.where(Offset == np.min(Offset))[0][0]
'''))
ref('vis-map', 'C28 C29', (V, '''    CliffToLX  = np.hstack([ShoreX[CliffToL], -RiverWidth/2])
    CliffToRX  = np.hstack([RiverWidth/2, ShoreX[CliffToR]])
''', '''    HalfWidth = RiverWidth / 2
    CliffToLX  = np.append(ShoreX[CliffToL], -HalfWidth)
    CliffToRX  = np.append(HalfWidth, ShoreX[CliffToR])
'''), (V, '''        LagoonPresent = ShoreY[:,3] > ShoreY[:,4]
        Dx = ShoreX[1] - ShoreX[0]
        LagoonLeftEndX = np.min(ShoreX[LagoonPresent]) - Dx
        LagoonRightEndX = np.max(ShoreX[LagoonPresent]) + Dx
        
        UsOutletEndWidth = ShoreY[OutletChanIx[0],1] - ShoreY[OutletChanIx[0],2]
        OutletUsLbPlotX = max(OutletEndX[0] - UsOutletEndWidth/2, LagoonLeftEndX)
        OutletUsRbPlotX = min(OutletEndX[0] + UsOutletEndWidth/2, LagoonRightEndX)
''', '''        LagoonIx = np.where(ShoreY[:,3] - ShoreY[:,4] > 0)[0]
        Dx = ShoreX[1] - ShoreX[0]
        
        UsBanks = ShoreY[OutletChanIx[0], [1,2]]
        UsHalfWidth = 0.5 * (UsBanks[0] - UsBanks[1])
        OutletUsLbPlotX = np.maximum(OutletEndX[0] - UsHalfWidth, ShoreX[LagoonIx[0]] - Dx)
        OutletUsRbPlotX = np.minimum(OutletEndX[0] + UsHalfWidth, ShoreX[LagoonIx[-1]] + Dx)
'''), (V, '''        ShoreInChan = ~np.logical_or(ShoreToL, ShoreToR)
''', '''        ShoreInChan = (OutletDsLbX < ShoreX) & (ShoreX < OutletDsRbX)
'''))
ref('vis-world', 'C28', (V, '''    plt.plot(ShoreXreal[:,0], ShoreYreal[:,0], 'g-', label='Shore')    
''', '''    plt.gca().plot(ShoreXreal[:,0], ShoreYreal[:,0], 'g-', label='Shore')
'''), (V, '''    EndTransects = np.where(np.isnan(ShoreY[:,3])==False)[0][[0,-1]]
    plt.plot(ShoreXreal[EndTransects[0],[3,4]], ShoreYreal[EndTransects[0],[3,4]], 'b-')
    plt.plot(ShoreXreal[EndTransects[1],[3,4]], ShoreYreal[EndTransects[1],[3,4]], 'b-')
''', '''    HasLagoon = np.flatnonzero(~np.isnan(ShoreY[:,3]))
    for EndIx in (HasLagoon[0], HasLagoon[-1]):
        plt.plot(ShoreXreal[EndIx,3:5], ShoreYreal[EndIx,3:5], 'b-')
'''))
ref('animate-helper', 'C29', (A, '''def animateMap(TimeIx, NcFile, ModelFig):
''', '''def channelAt(NcFile, ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, 
              OutletEndElev, Closed, RiverElev, RiverWL, RiverVel, LagoonWL, 
              LagoonVel, OutletWL, OutletVel, OutletEndWL, OutletEndVel, Pars):
    """ Assemble the channel from the results at a timestep
    """
    return riv.assembleChannel(ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, 
                               OutletEndElev, Closed, RiverElev, RiverWL - RiverElev, 
                               RiverVel, LagoonWL, LagoonVel, OutletWL - ShoreZ[:,1], 
                               OutletVel, OutletEndWL - OutletEndElev, OutletEndVel, 
                               ShoreX[1] - ShoreX[0], Pars)

def animateMap(TimeIx, NcFile, ModelFig):
'''), (A, '''    Dx = ShoreX[1] - ShoreX[0]
    OutletDep = OutletWL - ShoreZ[:,1]
    OutletEndDep = OutletEndWL - OutletEndElev
    RiverDep = RiverWL - RiverElev
    
    (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
     OnlineLagoon, OutletChanIx, ChanFlag, Closed) = \\
        riv.assembleChannel(ShoreX, ShoreY, ShoreZ, 
                            OutletEndX, OutletEndWidth, OutletEndElev, 
                            Closed, RiverElev, RiverDep, RiverVel, 
                            LagoonWL, LagoonVel, OutletDep, OutletVel, 
                            OutletEndDep, OutletEndVel, Dx, PhysicalPars)
            
    visualise.updateLongSection(LongSecFig, ChanDx, ChanElev, ChanWidth, 
                                ChanDep, ChanVel, PlotTime=ModelTime)
''', '''    Channel = channelAt(NcFile, ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, OutletEndElev, 
                        Closed, RiverElev, RiverWL, RiverVel, LagoonWL, LagoonVel, OutletWL, OutletVel, 
                        OutletEndWL, OutletEndVel, PhysicalPars)
    (ChanDx, ChanElev, ChanWidth) = Channel[:3]
    (ChanDep, ChanVel) = Channel[5:7]
    
    visualise.updateLongSection(LongSecFig, ChanDx, ChanElev, ChanWidth, 
                                ChanDep, ChanVel, PlotTime=ModelTime)
'''), (A, '''        EndTimestep = NcFile.dimensions['time'].size
    elif EndTimestep > NcFile.dimensions['time'].size:
''', '''        EndTimestep = len(NcFile.dimensions['time'])
    elif EndTimestep > len(NcFile.dimensions['time']):
'''))
ref('animate-frames', 'C29', (A, '''        ani = animation.FuncAnimation(FigToAnimate, animateMap, 
                                      frames=range(StartTimestep, EndTimestep, 
                                                   ResampleInt), 
                                      fargs=(NcFile, ModelFig), 
                                      interval=1000/FrameRate)
''', '''        Frames = [Ix for Ix in range(StartTimestep, EndTimestep) if (Ix - StartTimestep) % ResampleInt == 0]
        drawFrame = lambda Ix: animateMap(Ix, NcFile, ModelFig)
        ani = animation.FuncAnimation(FigToAnimate, drawFrame, frames=Frames, interval=1000/FrameRate)
'''))
ref('live-display', 'C18', (K, '''                BdyPlotTs = BdyPlotTs.append(pd.DataFrame(list(zip([RivFlow[-1]],
                                                                   [ChanDep[-1]*ChanVel[-1]*ChanWidth[-1]],
                                                                   [SeaLevel[-1]])),
                                                          columns=['Qin','Qout','SeaLevel'],
                                                          index=pd.DatetimeIndex([MorTime])))
''', '''                Outflow = ChanDep[-1]*ChanVel[-1]*ChanWidth[-1]
                BdyPlotTs = pd.concat([BdyPlotTs, 
                                       pd.DataFrame({'Qin': [RivFlow[-1]], 'Qout': [Outflow], 'SeaLevel': [SeaLevel[-1]]},
                                                    index=pd.DatetimeIndex([MorTime]))])
'''))


ref('mor-adapt-helper', 'C10 C11 C12 C13 C15 C31 C32', (M, '''    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
        MorDt = max(MorDt/2, TimePars['MorDtMin'])
        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
    
    while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
        MorDt = min(MorDt*2, TimePars['MorDtMax'])
        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
''', '''    MorDt = adaptTimestep(MorDt, MaxMorChangeRate, TimePars['MorDtMin'], TimePars['MorDtMax'], 
                          NumericalPars['MaxMorChange'])
'''), (M, '''def cliffCollision(''', '''def adaptTimestep(MorDt, Rate, MorDtMin, MorDtMax, MaxMorChange):
    """ Halve or double the morphological timestep to suit the rate of change """
    Change = lambda Dt: Rate * Dt.total_seconds()
    while MorDt > MorDtMin:
        if not Change(MorDt) > MaxMorChange:
            break
        MorDt = MorDt/2
        if MorDt < MorDtMin:
            MorDt = MorDtMin
        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
    while MorDt < MorDtMax:
        if not Change(MorDt) < MaxMorChange/2:
            break
        MorDt = 2*MorDt
        if MorDt > MorDtMax:
            MorDt = MorDtMax
        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
    return MorDt

def cliffCollision('''))
ref('mor-bank-loop', 'C10 C15 C13 C31 C32', (M, '''    ShoreYChangeRate[OnlineLagoon,3] += (BankEroRate[LagXS]/2) / ((LagoonBankElev[OnlineLagoon] - ShoreZ[OnlineLagoon,3]) * Dx)
    ShoreYChangeRate[OnlineLagoon,4] -= (BankEroRate[LagXS]/2) / ((PhysicalPars['BackshoreElev'] - ShoreZ[OnlineLagoon,3]) * Dx)
''', '''    for (TsectIx, Ero) in zip(OnlineLagoon, BankEroRate[LagXS]):
        LagoonBed = ShoreZ[TsectIx,3]
        ShoreYChangeRate[TsectIx,3] += 0.5 * Ero / (LagoonBankElev[TsectIx] - LagoonBed) / Dx
        ShoreYChangeRate[TsectIx,4] -= 0.5 * Ero / (PhysicalPars['BackshoreElev'] - LagoonBed) / Dx
'''), (M, '''    EroVolRate = - np.minimum(DVolRate, 0.0)  # Total volumetric erosion rate (+ve = erosion)
''', '''    EroVolRate = np.where(DVolRate < 0, -DVolRate, 0.0)  # Total volumetric erosion rate (+ve = erosion)
'''), (M, '''    BedDepRate = np.maximum(DVolRate, 0.0)  # Bed deposition volumetric rate (+ve)
''', '''    BedDepRate = DVolRate + EroVolRate  # Bed deposition volumetric rate (+ve)
'''))
ref('mor-lst-side', 'C11 C15 C13 C31 C32', (M, '''        if LST[OutletRbShoreIx-1]>0:
            # Transport from L to R
            ShoreYChangeRate[OutletRbShoreIx,0] -= (LST[OutletRbShoreIx-1]
                                                    / (ShorefaceHeight[OutletRbShoreIx] * Dx))
            WidthReductionRate = (LST[OutletRbShoreIx-1] 
                                  / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
            OutletEndWideningRate -= WidthReductionRate
            OutletEndXMoveRate += WidthReductionRate/2
        else:
            # Transport from R to L
            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
            WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                  / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
            OutletEndWideningRate -= WidthReductionRate
            OutletEndXMoveRate -= WidthReductionRate/2
''', '''        OutletLST = LST[OutletRbShoreIx-1]
        DriftDir = 1 if OutletLST > 0 else -1
        DownDriftIx = OutletRbShoreIx if DriftDir == 1 else OutletRbShoreIx-1
        ShoreYChangeRate[DownDriftIx,0] -= abs(OutletLST) / (ShorefaceHeight[DownDriftIx] * Dx)
        WidthReductionRate = abs(OutletLST) / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth'])
        OutletEndWideningRate = OutletEndWideningRate - WidthReductionRate
        OutletEndXMoveRate = OutletEndXMoveRate + DriftDir * WidthReductionRate/2
'''))
ref('mor-connected', 'C14 C13 C15 C31 C32', (M, '''        for TsectIx in EroTsects:
            logging.info('Barrier completely eroded at X = %.1fm' % ShoreX[TsectIx])
            if TsectIx > X0Ix:
                if np.all(LagoonOpen[np.arange(X0Ix+1, TsectIx+1)]):
                    PossBreachTsects.append(TsectIx)
            elif TsectIx < X0Ix:
                if np.all(LagoonOpen[np.arange(TsectIx, X0Ix)]):
                    PossBreachTsects.append(TsectIx)
            else: # TsectIx == X0Ix
                PossBreachTsects.append(TsectIx)
''', '''        for TsectIx in EroTsects:
            logging.info('Barrier completely eroded at X = %.1fm' % ShoreX[TsectIx])
            Between = LagoonOpen[X0Ix+1:TsectIx+1] if TsectIx > X0Ix else LagoonOpen[TsectIx:X0Ix]
            if all(Between):
                PossBreachTsects.append(TsectIx)
'''), (M, '''            BreachIx = PossBreachTsects[np.argmin(np.abs(ShoreX[PossBreachTsects]))]
''', '''            BreachIx = min(PossBreachTsects, key=lambda Ix: abs(ShoreX[Ix]))
'''), (M, '''        SpillTsects = np.where(CrestHeight < WaterLevel)[0]
''', '''        SpillTsects = np.flatnonzero(WaterLevel > CrestHeight)
'''))
ref('mor-extend', 'C13 C14 C15 C10 C31 C32', (M, '''        if OutletEndX[0] < OutletEndX[1]:
            # Outlet angles from L to R
            if ShoreX[OutletChanIx[-1]+1] <= OutletEndX[1]:
                Extend = True
                ExtendMask = np.logical_and(ShoreX[OutletChanIx[-1]] < ShoreX,
                                            ShoreX <= OutletEndX[1])
                logging.info('Outlet channel elongated rightwards across transect line X = %.1fm' % ShoreX[ExtendMask][-1])
            else:
                Extend = False    
        else:
            # Outlet angles from R to L
            if ShoreX[OutletChanIx[-1]-1] >= OutletEndX[1]:
                Extend = True
                ExtendMask = np.logical_and(ShoreX[OutletChanIx[-1]] > ShoreX,
                                            ShoreX >= OutletEndX[1])
                logging.info('Outlet channel elongated leftwards across transect line X = %.1fm' % ShoreX[ExtendMask][0])
            else:
                Extend = False
        
        if Extend:
''', '''        LastX = ShoreX[OutletChanIx[-1]]
        if OutletEndX[0] < OutletEndX[1]:
            # Outlet angles from L to R
            ExtendMask = (ShoreX > LastX) & (ShoreX <= OutletEndX[1])
        else:
            # Outlet angles from R to L
            ExtendMask = (ShoreX < LastX) & (ShoreX >= OutletEndX[1])
        
        if ExtendMask.any():
            logging.info('Outlet channel elongated across transect line(s) X = %s' % ShoreX[ExtendMask])
'''))
ref('mor-breach-helper', 'C13 C14 C15 C31 C32', (M, '''            OutletEndX[:] = ShoreX[BreachIx]
            ShoreZ[BreachIx, 2] = ShoreZ[BreachIx, 0]
            
            ShoreY[BreachIx,1] = min(ShoreY[BreachIx,0]-PhysicalPars['SpitWidth'],
                                     (ShoreY[BreachIx,0]+ShoreY[BreachIx,3])/2 + OutletEndWidth/2)
            ShoreY[BreachIx,2] = ShoreY[BreachIx,1] - OutletEndWidth
''', '''            OutletEndX[0] = ShoreX[BreachIx]
            OutletEndX[1] = ShoreX[BreachIx]
            (TransY, TransZ) = (ShoreY[BreachIx,:], ShoreZ[BreachIx,:])
            TransZ[2] = TransZ[0]
            Middle = 0.5 * (TransY[0] + TransY[3] + OutletEndWidth)
            Spit = TransY[0] - PhysicalPars['SpitWidth']
            TransY[1] = Spit if Spit < Middle else Middle
            TransY[2] = TransY[1] - OutletEndWidth
'''))
ref('preissmann-residual', 'C07', (R, '''            # Error in Us Bdy
            Err[0] = A[0]*V[0]-Q
            
            # Error in continuity equation
            Err[np.arange(1,2*N-1,2)] = (h[1:]*Be[1:] + h[:-1]*Be[:-1]
                                         + 2*dtdx*Theta * (V[1:]*A[1:] - V[:-1]*A[:-1])
                                         + SeepLen * dt_P_Theta * (h[1:] + h[:-1]) 
                                         - C1)
''', '''            # Error in Us Bdy
            Flow = V * A
            Err = np.empty(2*N)
            Err[0] = Flow[0] - Q
            
            # Error in continuity equation
            Stored = h * Be
            Err[1:-1:2] = (Stored[1:] + Stored[:-1] + 2*dtdx*Theta*(Flow[1:] - Flow[:-1])
                           + SeepLen*dt_P_Theta*(h[1:] + h[:-1]) - C1)
'''), (R, '''            h[h<=0] = 0.0001 # Prevent negative depths
            V[V==0] = 0.0001 # Prevent zero velocities
            
            # Update Sf and A
''', '''            np.copyto(h, 0.0001, where=h<=0) # Prevent negative depths
            np.copyto(V, 0.0001, where=V==0) # Prevent zero velocities
            
            # Update Sf and A
'''))
ref('bedload-helper', 'C05 C18', (R, '''    S = V**2 * PhysicalPars['GrainRoughness']**2 / h**(4/3)
    
    # Total shear stress (N/m2) and dimensionless shear stress
    Tau = Rho * g * h * S
    Theta = Tau / ((RhoS - Rho) * g * D)
''', '''    Theta = shieldsStress(V, h, PhysicalPars)
'''), (R, '''def calcBedload(''', '''def shieldsStress(V, h, PhysicalPars):
    """ Dimensionless shear stress from the friction slope """
    S = (V * PhysicalPars['GrainRoughness'])**2 / h**(4/3)
    RelDensity = PhysicalPars['RhoSed']/PhysicalPars['RhoRiv'] - 1
    return h * S / (RelDensity * PhysicalPars['GrainSize'])

def calcBedload('''))
ref('out-create-helper', 'C16 C17 C18 C24', (O, '''    SeaLevelVar = NcFile.createVariable('sea_level', np.float32, 
                                        (TimeDim.name,))
    SeaLevelVar.units = 'm'
    SeaLevelVar.long_name = 'Sea level'
    
    RiverFlowVar = NcFile.createVariable('river_flow', np.float32, 
                                         (TimeDim.name,))
    RiverFlowVar.units = 'm3/s'
    RiverFlowVar.long_name = 'River flow upstream of hapua'
    
    WaveHeightVar = NcFile.createVariable('hs_offshore', np.float32, 
                                          (TimeDim.name,))
''', '''    for (VarName, Units, LongName) in [('sea_level', 'm', 'Sea level'),
                                       ('river_flow', 'm3/s', 'River flow upstream of hapua')]:
        _newVariable(NcFile, VarName, (TimeDim.name,), Units, LongName)
    
    WaveHeightVar = NcFile.createVariable('hs_offshore', np.float32, 
                                          (TimeDim.name,))
'''), (O, '''def newOutFile(''', '''def _newVariable(NcFile, VarName, Dims, Units, LongName):
    Var = NcFile.createVariable(VarName, np.float32, Dims)
    Var.units = Units
    Var.long_name = LongName
    return Var

def newOutFile('''), (O, '''    NcFile.Kcoef = PhysicalPars['Kcoef']
    NcFile.RhoSed = PhysicalPars['RhoSed']
    NcFile.RhoSea = PhysicalPars['RhoSea']
    NcFile.RhoRiv = PhysicalPars['RhoRiv']
''', '''    for ParName in ('Kcoef', 'RhoSed', 'RhoSea', 'RhoRiv'):
        setattr(NcFile, ParName, PhysicalPars[ParName])
'''))
ref('out-closest', 'C24 C29', (O, '''    TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0][:1]
''', '''    TimeDiffs = np.abs((OutputTimes - DatetimeOfInterest).total_seconds())
    TimeIx = np.array([np.argmin(TimeDiffs)])
'''), (O, '''    NTransects = NcFile.dimensions['transect_x'].size
    
    SeaLevel = NcFile.variables['sea_level'][TimeIx]
    RivFlow = NcFile.variables['river_flow'][TimeIx]
    Hs_offshore = NcFile.variables['hs_offshore'][TimeIx]
    EDir_h = NcFile.variables['wave_dir'][TimeIx]
''', '''    NTransects = len(NcFile.dimensions['transect_x'])
    (SeaLevel, RivFlow, Hs_offshore, EDir_h) = (NcFile.variables[VarName][TimeIx] for VarName in 
                                                ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir'))
'''))
ref('core-next', 'C18 C19', (K, '''    OutTime = TimePars['StartTime'] + OutputOpts['OutInt']
    TsOutTime = TimePars['StartTime'] + OutputOpts['TsOutInt']
    LogTime = TimePars['StartTime'] + OutputOpts['LogInt']
    PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
''', '''    (OutTime, TsOutTime, LogTime, PlotTime) = [MorTime + OutputOpts[Key] for Key in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt')]
'''), (K, '''        if MorDt > TimePars['EndTime'] - MorTime:
            MorDt = TimePars['EndTime'] - MorTime
''', '''        MorDt = min(MorDt, TimePars['EndTime'] - MorTime)
'''), (K, '''        EDir_h = WavesAtT.EDir_h[0]
        WavePower = WavesAtT.WavePower[0]
        WavePeriod = WavesAtT.WavePeriod[0]
        Wlen_h = WavesAtT.Wlen_h[0]
        Hs_offshore = WavesAtT.Hsig_Offshore[0]
        
''', '''        Waves = WavesAtT.iloc[0]
        (EDir_h, WavePower, WavePeriod, Wlen_h, Hs_offshore) = (Waves['EDir_h'], Waves['WavePower'], Waves['WavePeriod'], 
                                                                Waves['Wlen_h'], Waves['Hsig_Offshore'])
        
'''))
ref('load-reader', 'C25', (L, '''        ShoreShp = shapefile.Reader(Config['SpatialInputs']['Shoreline'])
        # check it is a polyline and there is only one line
        assert ShoreShp.shapeType==3, 'Shoreline shapefile must be a polyline.'
        assert len(ShoreShp.shapes())==1, 'multiple polylines in Shoreline shapefile. There should only be 1.'
        # extract coordinates
        IniShoreCoords = np.asarray(ShoreShp.shape(0).points[:])
''', '''        IniShoreCoords = readPolyline(Config['SpatialInputs']['Shoreline'])
'''), (L, '''        LagoonShp = shapefile.Reader(Config['SpatialInputs']['BarrierBackshore'])
        # check it is a polyline and there is only one
        assert LagoonShp.shapeType==3, 'BarrierBackshore must be a polyline shapefile'
        assert len(LagoonShp.shapes())==1, 'multiple polygons in BarrierBackshore shapefile. There should only be 1.'
        LagoonCoords = np.asarray(LagoonShp.shape(0).points[:])
''', '''        LagoonCoords = readPolyline(Config['SpatialInputs']['BarrierBackshore'])
'''), (L, '''def loadModel(''', '''def readPolyline(FileName):
    """ Coordinates of the (single) line in a polyline shapefile """
    Shp = shapefile.Reader(FileName)
    assert Shp.shapeType == 3, '%s must be a polyline shapefile' % FileName
    Shapes = Shp.shapes()
    assert len(Shapes) == 1, 'multiple polylines in %s. There should only be 1.' % FileName
    return np.array([list(Point) for Point in Shapes[0].points])

def loadModel('''))
ref('load-options', 'C18 C20 C30 C21', (L, '''    OutputOpts = {'OutFile': OutFile,
                  'TsOutFile': TsOutFile,
                  'OutInt': pd.Timedelta(seconds=Config['OutputOptions']['OutInt']),
                  'TsOutInt': pd.Timedelta(seconds=Config['OutputOptions']['TsOutInt']),
                  'LogInt': pd.Timedelta(seconds=Config['OutputOptions']['LogInt']),
                  'PlotInt': pd.Timedelta(seconds=Config['OutputOptions']['PlotInt'])}
''', '''    OutputOpts = dict(OutFile=OutFile, TsOutFile=TsOutFile)
    for Key in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt'):
        OutputOpts[Key] = pd.Timedelta(Config['OutputOptions'][Key], unit='s')
'''), (L, '''    if Config['OutputOptions']['OutFile'] is None:
        OutFile = os.path.splitext(ConfigFileName)[0] + '_outputs.nc'
    else:
        OutFile = Config['OutputOptions']['OutFile']
''', '''    OutFile = Config['OutputOptions']['OutFile']
    if OutFile is None:
        (BaseName, _) = os.path.splitext(ConfigFileName)
        OutFile = '%s_outputs.nc' % BaseName
'''))
ref('synth-lists', 'C23', (S, '''            TimeList = pd.date_range(start = LastEventTime, freq = CalcTimeInt,
                                     end = LastEventTime + GapLength - RisingLimbTime,
                                     closed = 'right')
            TimeList = TimeList.append(pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]))
''', '''            NextEventTime = LastEventTime + GapLength
            TimeList = pd.date_range(start = LastEventTime, freq = CalcTimeInt,
                                     end = NextEventTime - RisingLimbTime)[1:]
            TimeList = TimeList.append(pd.DatetimeIndex([NextEventTime - RisingLimbTime, NextEventTime]))
'''), (S, '''        Rate1Vals = Rate1Vals[-1] * np.exp(-DecayRate1 * DaysSinceLastEvent)
        Rate2Vals = Rate2Vals[-1] * np.exp(-DecayRate2 * DaysSinceLastEvent)
        Rate1Vals[-1] += EventSize * PropRate1
        Rate2Vals[-1] += EventSize * PropRate2
        TotVals = Rate1Vals + Rate2Vals
''', '''        (Rate1Vals, Rate2Vals) = [Vals[-1] * np.exp(-Decay * DaysSinceLastEvent)
                                  for (Vals, Decay) in [(Rate1Vals, DecayRate1), (Rate2Vals, DecayRate2)]]
        Rate1Vals[-1] = Rate1Vals[-1] + EventSize * PropRate1
        Rate2Vals[-1] = Rate2Vals[-1] + EventSize * PropRate2
        TotVals = np.add(Rate1Vals, Rate2Vals)
'''))
ref('interp-columns', 'C19 C18', (K, '''    FromIx = np.where(Df.index <= New_idxs[0])[0][-1]
    ToIx = np.append(np.where(Df.index >= New_idxs[-1])[0], len(Df)-1)[0]
    Selected = Df[FromIx:ToIx+1]
    Selected = Selected.reindex(Selected.index.append(New_idxs).unique())
    Selected = Selected.sort_index()
    Selected = Selected.interpolate(method='time')
    return Selected.loc[New_idxs]''', '''    Seconds = (Df.index - Df.index[0]).total_seconds()
    NewSeconds = (New_idxs - Df.index[0]).total_seconds()
    if isinstance(Df, pd.Series):
        return pd.Series(np.interp(NewSeconds, Seconds, Df.values), index=New_idxs)
    return pd.DataFrame({Col: np.interp(NewSeconds, Seconds, Df[Col].values) for Col in Df.columns}, 
                        index=New_idxs)'''))

ref('mor-overwash-loop', 'C31 C32 C13 C11', (M, '''        ShoreZ[LagoonFilled,0] += ((ShoreY[LagoonFilled,4] - ShoreY[LagoonFilled,3]) * 
                                   BackBarHeight[LagoonFilled] / CrestWidth[LagoonFilled])
        ShoreY[LagoonFilled,3] = ShoreY[LagoonFilled,4]
''', '''        for Ix in np.where(LagoonFilled)[0]:
            Excess = (ShoreY[Ix,4] - ShoreY[Ix,3]) * BackBarHeight[Ix]
            ShoreZ[Ix,0] += Excess / CrestWidth[Ix]
            ShoreY[Ix,3] = ShoreY[Ix,4]
'''), (M, '''        VolUntilLevel = ShoreZ[NegativeOutletWidth,2] - ShoreZ[NegativeOutletWidth,0]
        PutSedAtFront = VolUntilLevel >= 0.0
        PutSedAtBack = VolUntilLevel < 0.0
''', '''        CrestDiff = ShoreZ[NegativeOutletWidth,0] - ShoreZ[NegativeOutletWidth,2]
        PutSedAtFront = CrestDiff <= 0.0
        PutSedAtBack = ~PutSedAtFront
        VolUntilLevel = -CrestDiff
'''))
ref('mor-join-loop', 'C32 C13 C14 C15', (M, '''        ShoreZ[LagoonIntersect, 3] = (((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) * ShoreZ[LagoonIntersect, 1] 
                                      + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4]) * ShoreZ[LagoonIntersect, 3]) 
                                      / ((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2])
                                         + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4])))
        ShoreY[LagoonIntersect, 3] += (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) 
''', '''        for Ix in np.where(LagoonIntersect)[0]:
            ChanWidth = ShoreY[Ix,1] - ShoreY[Ix,2]
            LagWidth = ShoreY[Ix,3] - ShoreY[Ix,4]
            ShoreZ[Ix,3] = (ChanWidth * ShoreZ[Ix,1] + LagWidth * ShoreZ[Ix,3]) / (ChanWidth + LagWidth)
            ShoreY[Ix,3] += ChanWidth
'''), (M, '''            ShoreY[ExtendMask,1] = ShoreY[ExtendMask,0] - PhysicalPars['SpitWidth']
            # Width of new outlet section = end width
            ShoreY[ExtendMask,2] = ShoreY[ExtendMask,1] - OutletEndWidth
''', '''            # Width of new outlet section = end width
            ShoreY[ExtendMask,2] = ShoreY[ExtendMask,0] - (PhysicalPars['SpitWidth'] + OutletEndWidth)
            ShoreY[ExtendMask,1] = ShoreY[ExtendMask,2] + OutletEndWidth
'''))


def run(names):
    bad = 0
    for name, checks, edits in REF:
        if names and name not in names and not set(names) & set(checks):
            continue
        d = tempfile.mkdtemp(prefix='ref-', dir='/tmp'); v = tempfile.mkdtemp(prefix='refv-', dir='/tmp')
        try:
            subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + d, shell=True)
            ok = True
            for path, old, new in edits:
                p = os.path.join(d, path)
                t = open(p, encoding='utf-8', newline='').read().replace('\r\n', '\n')
                if t.count(old) != 1:
                    print('NOMATCH', name, t.count(old), repr(old[:70])); ok = False; break
                open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new).replace('\n', '\r\n'))
            if not ok:
                bad += 1
                continue
            for s in ('symx', 'harnesses'):
                shutil.copytree(os.path.join(ROOT, s), os.path.join(v, s))
            for s in ('MANIFEST.json', 'KNOWN_FINDINGS.txt'):
                shutil.copy(os.path.join(ROOT, s), v)
            for c in checks:
                if os.environ.get('ONLY') and c not in os.environ['ONLY'].split():
                    continue
                r = subprocess.run([PY, v + '/symx/run.py', 'check', c, '--tier', 'quick'], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, env=dict(os.environ, HAPUA_REPO=d, SYMX_DEBUG='1'))
                print('ok  ' if r.returncode == 0 else 'BAD ', r.returncode, c, name, flush=True)
                if r.returncode:
                    bad += 1
                    print('     ', '\n      '.join(r.stdout.strip().splitlines()[-4:])[:1500])
        finally:
            shutil.rmtree(d); shutil.rmtree(v)
    return bad


if __name__ == '__main__':
    sys.exit(1 if run(sys.argv[1:]) else 0)
