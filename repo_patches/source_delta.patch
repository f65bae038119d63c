From acce2116d66643251bdb58b21592d244613552c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:18 +0000
Subject: [PATCH 01/61] fix: longshore transport is not zero where waves are
 directed offshore

---
 hapuamod/coast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index 2da6eab..ec72221 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -75,7 +75,7 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
     BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
     
-    LST = - PhysicalPars['K2coef'] * WavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
+    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
     return LST
 
-- 
2.43.0


From a99b66fa4a1877ff56c3dc5c38c1055ac256ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 02/61] fix: longshore transport is NaN when waves break
 seaward of the wave data depth

---
 hapuamod/coast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index ec72221..a02c8b1 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -73,7 +73,8 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     C_h = ((PhysicalPars['Gravity'] * WavePeriod / (2.0 * np.pi)) * 
            np.tanh(2.0 * np.pi * PhysicalPars['WaveDataDepth'] / Wlen_h))
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
-    BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
+    # (if waves break seaward of WaveDataDepth there is no further refraction)
+    BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * np.minimum(C_b / C_h, 1.0))
     
     LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
-- 
2.43.0


From 0d17e0a2f313cdabf45e64e7a7f41fa515df76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 03/61] fix: steady hydraulics accepts NaN depths below a drop
 in bed level

---
 hapuamod/riv.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1dba573..fefed93 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -45,7 +45,9 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
         # h[i] + A*h[i]^(-2) - B*h[i]^(-10/3) + C = 0
         
         # initial estimate
-        ChanDep[XS] = (ChanDep[XS+1] + ChanElev[XS+1]) - ChanElev[XS] + S_f[XS+1]*ChanDx[XS] 
+        # (no shallower than critical so that it can't be negative below a drop in the bed)
+        ChanDep[XS] = np.maximum((ChanDep[XS+1] + ChanElev[XS+1]) - ChanElev[XS] + S_f[XS+1]*ChanDx[XS],
+                                 CritDep[XS])
         
         # iterate solution for h
         Acoef = Beta * (Qin**2 / (2*Grav*ChanWidth[XS]**2))
@@ -53,9 +55,11 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
         Cconst = ChanElev[XS] - S_f[XS+1]*ChanDx[XS]/2 - Energy[XS+1] 
         DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
         CheckCount = 0
-        while np.abs(DepErr) > Tol:
+        # (written so that a NaN error is never accepted as a solution)
+        while not np.abs(DepErr) <= Tol:
             Gradient = 1 - 2*Acoef*ChanDep[XS]**(-3) + (10/3)*Bcoef*ChanDep[XS]**(-13/3)
-            ChanDep[XS] -= DepErr / Gradient
+            # Limit the newton step so that the depth can't become negative
+            ChanDep[XS] = np.maximum(ChanDep[XS] - DepErr/Gradient, 0.5*ChanDep[XS])
             DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
             CheckCount += 1
             assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'
-- 
2.43.0


From 9116e2e8942e9ff9e56128b1fb80b5eb6a3b3fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:19 +0000
Subject: [PATCH 04/61] fix: unsteady hydraulics reuse a stale solution after a
 singular matrix

---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index fefed93..ae4dda9 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -272,6 +272,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             except linalg.LinAlgError as ErrMsg:
                 logging.warning('LinAlgError %s - adding some noise to see if this fixes it...' % ErrMsg)
                 a_banded += np.random.random(a_banded.shape) * 1e-7 - 5e-8
+                Delta = linalg.solve_banded([2,2],a_banded,Err)
             
             # Update h & V
             h -= Delta[np.arange(0,2*N,2)]
-- 
2.43.0


From 0cb4ce3dc76e15b3861d35000fd5a96be6f23b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:02 +0000
Subject: [PATCH 05/61] fix: steady fallback of unsteady hydraulics is lost and
 uses the wrong step's boundary conditions

---
 hapuamod/riv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index ae4dda9..e60b91f 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -306,7 +306,10 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h, V) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            # update in place (h and V belong to the calling function)
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q, DsWl, NumericalPars)
+            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
+            A = h*B
 
 def assembleChannel(ShoreX, ShoreY, ShoreZ, 
                     OutletEndX, OutletEndWidth, OutletEndElev, 
-- 
2.43.0


From 915beff804ed6fe59191694391ab799240e05434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 06/61] fix: lagoon left of the river is ignored (and right
 counted twice) when the outlet is in line with the river

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index e60b91f..8d91550 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -403,8 +403,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             OnlineLagoon = np.array([X0Ix])
             EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
             EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
-        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
-        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
+        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
+        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     elif OutletEndX[0] > 0:
         # Outlet channel to right of river
         if Closed:
-- 
2.43.0


From 849f0db92c19e5bc7ec1f2032ceadcb8f2e83eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:15 +0000
Subject: [PATCH 07/61] fix: outlet channel still reported online after closure
 within the lagoon

---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 8d91550..95140a8 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -443,6 +443,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
         if not Closed:
             logging.info('Closure occured in lagoon at X=%.0f', ShoreX[OnlineLagoon[LagCloseIx]])
             Closed = True
+            OutletChanIx = np.empty(0)
         EndArea += np.nansum(LagoonWidth[OnlineLagoon[LagCloseIx:]] * Dx)
         EndLen += np.nansum((LagoonWidth[OnlineLagoon[LagCloseIx:]] > 0) * Dx)
         OnlineLagoon = OnlineLagoon[:LagCloseIx]
-- 
2.43.0


From 23c3d046dfd84def16fac5cace6076219e573719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 08/61] fix: outlet channel one transect spacing too long when
 its end lies exactly on a transect

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 95140a8..707e8aa 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -467,7 +467,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             ChanDx[-2] += OutletEndX[1] % Dx
         else:
             # Outlet from R to L
-            ChanDx[-2] += Dx - (OutletEndX[1] % Dx)
+            ChanDx[-2] += (-OutletEndX[1]) % Dx
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From f5ba7fd43db6f75369e6e8e96cd5ef757c4d3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:22 +0000
Subject: [PATCH 09/61] fix: half of the lagoon storage attached to an end
 cross-section is lost in unsteady hydraulics

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 707e8aa..16dc94b 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -139,9 +139,9 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
-    dx2[0] = dx[0]
+    dx2[0] = dx[0]/2
     dx2[1:-1] = (dx[:-1]+dx[1:])/2
-    dx2[-1] = dx[-1]
+    dx2[-1] = dx[-1]/2
     Be = B + LagArea/dx2
     
     # Calculate ratio of length over which seepage occurs, to length of reach, for each reach
-- 
2.43.0


From 603e41296ae9403683542258ad5eda6de0b395a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 10/61] fix: offline lagoon area on the far side of the river
 is lost when only one lagoon transect is online

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 16dc94b..ea74dda 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -478,8 +478,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     LagoonWidth[OnlineLagoon], OutletWidth, 
                                     np.full(2, OutletEndWidth)])
     LagArea = np.zeros(ChanElev.size)
-    LagArea[RiverElev.size] = StartArea
-    LagArea[RiverElev.size + OnlineLagoon.size - 1] = EndArea
+    LagArea[RiverElev.size] += StartArea
+    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
     LagLen = (ChanFlag==1) * Dx
     LagLen[RiverElev.size] += StartLen
     LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
-- 
2.43.0


From 083dc06d0550311a2bc2985711c9e2501fbbedea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:48 +0000
Subject: [PATCH 11/61] fix: lagoon area on the transect where the outlet
 channel starts is not counted

---
 hapuamod/riv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index ea74dda..9ef24b6 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -413,8 +413,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             EndLen = 0
         else:
             OnlineLagoon = np.arange(X0Ix, np.where(ShoreX < OutletEndX[0])[0][-1] + 1)
-            EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
-            EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
+            EndArea = np.nansum(LagoonWidth[ShoreX >= OutletEndX[0]] * Dx)
+            EndLen = np.nansum((LagoonWidth[ShoreX >= OutletEndX[0]] > 0) * Dx)
         StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
         StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     else:
@@ -425,8 +425,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             EndLen = 0
         else:
             OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)
-            EndArea = np.nansum(LagoonWidth[ShoreX < OutletEndX[0]] * Dx)
-            EndLen = np.nansum((LagoonWidth[ShoreX < OutletEndX[0]] > 0) * Dx)
+            EndArea = np.nansum(LagoonWidth[ShoreX <= OutletEndX[0]] * Dx)
+            EndLen = np.nansum((LagoonWidth[ShoreX <= OutletEndX[0]] > 0) * Dx)
         StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
         StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
     
-- 
2.43.0


From 13d26db30c5a26702e1d2861777ca5a342576c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 12/61] fix: shoreline left of the outlet moved by a rate
 instead of rate x time under right to left transport

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 75ccc14..3d1a7eb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -149,8 +149,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndXMoveRate += WidthReductionRate/2
         else:
             # Transport from R to L
-            ShoreY[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
-                                            / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
+            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
+                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                   / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
-- 
2.43.0


From fa7c4f171bcc11dd588d48ef132109ffaf3db6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 13/61] fix: outlet reaching the right edge of the domain jumps
 to the left edge

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 3d1a7eb..634948d 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -220,7 +220,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         OutletEndX[1] = ShoreX[1]
     if OutletEndX[1] > ShoreX[-2]:
         logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
-        OutletEndX[1] = ShoreX[1]
+        OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
     CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-- 
2.43.0


From 3e9b7dd2b21251c4d94ef67149b1592faccc8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 14/61] fix: seaward truncation of a right to left outlet
 channel keeps eroded transects online

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 634948d..38ad408 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -415,7 +415,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                        ShoreX <= OutletEndX[1]))[0]
             else:
                 # Outlet angles from R to L
-                OutletEndX[1] = ShoreX[TruncationIx[-1]] + Dx/2 
+                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx/2 
                 OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                  ShoreX <= OutletEndX[0]))[0])
     
-- 
2.43.0


From 6cff75302a8b5fccfe1b5f5ac1d8f9e91a179c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 15/61] fix: overtopping check overwrites the barrier crest
 heights

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 38ad408..121e580 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -598,7 +598,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-    CrestHeight = ShoreZ[:,0] # default
+    CrestHeight = ShoreZ[:,0].copy() # default
     CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
     CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan,0] # transects with connected channels (active or relic)
     assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
-- 
2.43.0


From 8652c13aabd7486f3921d6704ec8461095f8c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 16/61] fix: outlet channel intersection checks read
 uninitialised memory where there is no channel

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 121e580..513db44 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,7 +446,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #
     # Remove old outlet channel and preserve sediment mass balance
     
-    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]))
+    LagoonIntersect = np.less_equal(ShoreY[:,2], ShoreY[:,3])
     if np.any(LagoonIntersect):
         for IntersectIx in np.where(LagoonIntersect)[0]:
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
@@ -516,7 +516,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     Breach = False
     BreachIx = np.nan
     
-    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]))
+    ShoreIntersect = np.less_equal(ShoreY[:,0], ShoreY[:,1])
     if np.any(ShoreIntersect):
         # If lagoon closed then check if channel at any eroded location(s) is connected to lagoon via relic channel
         if Closed and np.any(ShoreIntersect[ConnectedChan]):
-- 
2.43.0


From faba961e78a8bcec7657ca35050ab3f395808cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 17/61] fix: relic channel transect which breaches is dissolved
 into the shoreline

---
 hapuamod/mor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 513db44..d59a85a 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -526,7 +526,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             PossBreachTsects = np.where(np.logical_and(ShoreIntersect, ConnectedChan))[0]
             ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])
             BreachIx = PossBreachTsects[np.argmin(ChanLength)]
-            ShoreIntersect = ShoreIntersect[ShoreIntersect!=BreachIx]
+            ShoreIntersect[BreachIx] = False
+            # keep the channel there, just landward of the eroded shoreline
+            ShoreShiftDist = 0.001 + (ShoreY[BreachIx,1] - ShoreY[BreachIx,0])
+            ShoreY[BreachIx,1] -= ShoreShiftDist
+            ShoreY[BreachIx,2] -= (ShoreShiftDist * 
+                                   (ShoreZ[BreachIx,0] - ShoreZ[BreachIx,1]) /
+                                   (ShoreZ[BreachIx,2] - ShoreZ[BreachIx,1]))
     
         # Adjust ShoreY where outlet banks intersects coast or lagoon    
         for IntersectIx in np.where(ShoreIntersect)[0]:
-- 
2.43.0


From 3bf719f29be45eebdc883191b6ed525d3e1b1b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 18/61] fix: breach on a connected outlet channel digs a new
 channel instead

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d59a85a..8dc3639 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -657,7 +657,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     #%% Create breach if one has been triggered
     if Breach:
-        if BreachIx in ConnectedChan:
+        if ConnectedChan[BreachIx]:
             # Outlet truncation breach
             logging.info('Breach on pre-existing outlet channel at X = %.1fm' % ShoreX[BreachIx])
             OutletEndX[1] = ShoreX[BreachIx]
-- 
2.43.0


From 736786ea5f1598d171b6aa7ff887dbb907bb0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 19/61] fix: overtopping far from the river breaches an open
 lagoon

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 8dc3639..3805ed3 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -633,7 +633,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 PossBreachTsects.append(TsectIx)
         PossBreachTsects = np.array(PossBreachTsects)
         
-        if PossBreachTsects.size == 0 and not Closed:
+        if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
             # is closer to where river enters lagoon than existing outlet
             CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
-- 
2.43.0


From 72b7c6b29d711256abf8a8c0273164854e8a786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 20/61] fix: relic channel dissolved into the lagoon keeps its
 inner barrier height and loses bed volume

---
 hapuamod/mor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 3805ed3..b05fd72 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -453,12 +453,15 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                          ShoreX[IntersectIx])
         ShoreZ[LagoonIntersect, 3] = (((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) * ShoreZ[LagoonIntersect, 1] 
                                       + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4]) * ShoreZ[LagoonIntersect, 3]) 
-                                      / (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 4]))
+                                      / ((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2])
+                                         + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4])))
         ShoreY[LagoonIntersect, 3] += (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) 
         # Remove outlet channel from transect now it has been dissolved into lagoon
         ShoreY[LagoonIntersect, 1] = np.nan
         ShoreY[LagoonIntersect, 2] = np.nan
         ShoreZ[LagoonIntersect, 1] = np.nan
+        ShoreZ[LagoonIntersect, 2] = np.nan
+        OutletPresent[LagoonIntersect] = False
     
     #%% ID locations where existing or relic outlet channel is connected to lagoon
     # Also update WaterLevel variable to include outlet channel water level 
-- 
2.43.0


From 2ff3a75f2f5b72457e54a08737ccc50f53c215df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 21/61] fix: breach through a narrow barrier leaves no lagoon
 behind it

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index b05fd72..403342c 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -686,9 +686,9 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             if ShoreY[BreachIx,3] >= ShoreY[BreachIx,2]:
                 logging.warning('barrier widened to fit breach outlet channel')
                 ShoreY[BreachIx,3] = ShoreY[BreachIx,2] - 0.001
-            if ShoreY[BreachIx,4] >= ShoreY[BreachIx,2]:
+            if (ShoreY[BreachIx,3] - ShoreY[BreachIx,4]) < PhysicalPars['MinOutletWidth']:
                 logging.warning('cliff retreated to fit breach outlet channel')
-                ShoreY[BreachIx,4] = ShoreY[BreachIx,2] - 0.001
+                ShoreY[BreachIx,4] = ShoreY[BreachIx,3] - PhysicalPars['MinOutletWidth'] - 0.001
     
     #%% Prevent lagoon closure at X=0 (where river enters)
     # This ensures there is always one viable cross-section in the lagoon
-- 
2.43.0


From 634659d05a40759b3d8d2cb3030f7036a69d63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 22/61] fix: outlet channel truncated by the lagoon still
 starts upstream of other truncated transects

---
 hapuamod/mor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 403342c..32ba92d 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -356,10 +356,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Move the ustream end of the outlet channel
             if OutletEndX[0] < OutletEndX[1]:
                 # Outlet angles from L to R
-                OutletEndX[0] = ShoreX[TruncationIx[0] + 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] + 1]
             else:
                 # Outlet angles from R to L
-                OutletEndX[0] = ShoreX[TruncationIx[0] - 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] - 1]
             
             # Recompute OutletChanIx
             if OutletEndX[0] < OutletEndX[1]:
@@ -374,19 +374,19 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             
             # Check if truncation is a collision between outlet channel and cliff
             # i.e. where there is no lagoon. If so then extend lagoon.
-            if ShoreY[TruncationIx[0], 2] <= ShoreY[TruncationIx[0], 4]:    
-                if ShoreX[TruncationIx[0]] > 0:
+            if ShoreY[TruncationIx[-1], 2] <= ShoreY[TruncationIx[-1], 4]:    
+                if ShoreX[TruncationIx[-1]] > 0:
                     # Extend right end of lagoon
                     logging.info('Extending R end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][-1]
-                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[0] + 1)
+                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[-1] + 1)
                 else:
                     # Extend left end of lagoon
                     logging.info('Extending L end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][0]
-                    LagExtension = np.arange(TruncationIx[0], CurLagEndIx)
+                    LagExtension = np.arange(TruncationIx[-1], CurLagEndIx)
             else:
                 Extend = False
             
-- 
2.43.0


From 5ef71c8c75d756b3eaef7d6fcfd07c9c95b4ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 23/61] fix: breach on a relic channel closes again at once as
 the outlet is still narrower than the minimum

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 32ba92d..8788aa2 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -660,6 +660,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     #%% Create breach if one has been triggered
     if Breach:
+        # Assume breach width equals the bigger of current outlet end width and 2 times the outlet width for closure
+        OutletEndWidth.flat[0] = max(OutletEndWidth, 2*PhysicalPars['MinOutletWidth'])
         if ConnectedChan[BreachIx]:
             # Outlet truncation breach
             logging.info('Breach on pre-existing outlet channel at X = %.1fm' % ShoreX[BreachIx])
@@ -672,8 +674,6 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndX[:] = ShoreX[BreachIx]
             ShoreZ[BreachIx, 2] = ShoreZ[BreachIx, 0]
             
-            # Assume breach width equals the bigger of current outlet end width and 2 times the outlet width for closure
-            OutletEndWidth.flat[0] = max(OutletEndWidth, 2*PhysicalPars['MinOutletWidth'])
             ShoreY[BreachIx,1] = min(ShoreY[BreachIx,0]-PhysicalPars['SpitWidth'],
                                      (ShoreY[BreachIx,0]+ShoreY[BreachIx,3])/2 + OutletEndWidth/2)
             ShoreY[BreachIx,2] = ShoreY[BreachIx,1] - OutletEndWidth
-- 
2.43.0


From c4b681561adbb1ec6cbb685c17cf64557d6269b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 24/61] fix: timestep can leave the configured range

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 8788aa2..1c19bb6 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -181,11 +181,11 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndXMoveRate))
     
     while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        MorDt /= 2
+        MorDt = max(MorDt/2, TimePars['MorDtMin'])
         logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
     
     while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
-        MorDt *= 2
+        MorDt = min(MorDt*2, TimePars['MorDtMax'])
         logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
-- 
2.43.0


From 31b7cb539fbd0b3fb779233017de1d06b5bfbab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 25/61] fix: model crashes after reaching the end time

---
 hapuamod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d117dd9..19a08e0 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -104,7 +104,7 @@ def main(ModelConfigFile, Overwrite=False):
     PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
     
     MorDt = TimePars['MorDtMin'] # Initial morphological timestep
-    while MorTime <= TimePars['EndTime']:
+    while MorTime < TimePars['EndTime']:
         
         # Re-assemble the combined river channel incase it has evolved
         (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
-- 
2.43.0


From 9df260563cd08f7efe18488903a1a54e4330be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:03 +0000
Subject: [PATCH 26/61] fix: fractions of a second of the timestep are not
 applied to the morphology

---
 hapuamod/mor.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 1c19bb6..f6d5b4f 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -180,22 +180,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndAggRate),
                            abs(OutletEndXMoveRate))
     
-    while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
+    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
         MorDt = max(MorDt/2, TimePars['MorDtMin'])
-        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
-    while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
         MorDt = min(MorDt*2, TimePars['MorDtMax'])
-        logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
     #  1. issue warning
     #  2. limit change (while preserving sign) to prevent model blowing up (even though this may be at the expense of mass balance)
-    if MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        assert MorDt.seconds <= TimePars['MorDtMin'].seconds
+    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
         logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',
-                        MaxMorChangeRate * MorDt.seconds, NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
-        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.seconds
+                        MaxMorChangeRate * MorDt.total_seconds(), NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
+        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
         RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
@@ -206,13 +206,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Update morphology
         
     # note that += modifies variables in place so no need to explicitly return them!
-    RiverElev[1:] += RivBedAggRate * MorDt.seconds
-    ShoreZ += ShoreZChangeRate * MorDt.seconds
-    ShoreY += ShoreYChangeRate * MorDt.seconds
+    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
+    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
+    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
-        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.seconds
-        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.seconds
-        OutletEndX[1] += OutletEndXMoveRate * MorDt.seconds
+        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
+        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
     #%% 1. Check if outlet has extended too close to the edge of the domain
     if OutletEndX[1] < ShoreX[1]:
-- 
2.43.0


From 3c616cc38bc1987b6122fb4ce51898ed16278da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:33 +0000
Subject: [PATCH 27/61] fix: search for connected relic channel runs off the
 end of the domain

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index f6d5b4f..62bca66 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -494,12 +494,12 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         
     # Find additional connected bits of relic outlet channel
     if not np.isnan(ConnectedChanMinMax[0]):
-        while WideEnoughChannel[ConnectedChanMinMax[0]-1]:
+        while ConnectedChanMinMax[0] > 0 and WideEnoughChannel[ConnectedChanMinMax[0]-1]:
             WaterLevel[ConnectedChanMinMax[0]-1] = WaterLevel[ConnectedChanMinMax[0]]
             ConnectedChanMinMax[0] -= 1
     
     if not np.isnan(ConnectedChanMinMax[1]):
-        while WideEnoughChannel[ConnectedChanMinMax[1]+1]:
+        while ConnectedChanMinMax[1] < ShoreX.size-1 and WideEnoughChannel[ConnectedChanMinMax[1]+1]:
             WaterLevel[ConnectedChanMinMax[1]+1] = WaterLevel[ConnectedChanMinMax[1]]
             ConnectedChanMinMax[1] += 1
             
-- 
2.43.0


From 5542fc4f35abf5b972bd3289c239fe8b0fbe71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 28/61] fix: overwash pushes the back of the barrier into the
 cliff giving a lagoon of negative width

---
 hapuamod/mor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 62bca66..1f9c1cc 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -234,6 +234,14 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreY[CliffCollision, 3] = ShoreY[CliffCollision, 4]
         ShoreY[CliffCollision, 0] += (CliffOverlapDist - CliffRetDist)
     
+    # Check if overwash has more than filled the lagoon and put the excess on top of the barrier
+    LagoonFilled = ShoreY[:,3] < ShoreY[:,4]
+    if np.any(LagoonFilled):
+        logging.info('Overwash has filled lagoon at X = %s', ShoreX[LagoonFilled])
+        ShoreZ[LagoonFilled,0] += ((ShoreY[LagoonFilled,4] - ShoreY[LagoonFilled,3]) * 
+                                   BackBarHeight[LagoonFilled] / CrestWidth[LagoonFilled])
+        ShoreY[LagoonFilled,3] = ShoreY[LagoonFilled,4]
+    
     #%% 3. Check if outlet channel (online or offline) has negative width due to overwash and adjust to prevent negative width channel
     if np.any(ShoreY[OutletPresent,1] < ShoreY[OutletPresent,2]):
         logging.debug('Overwashing occuring into closed channel in barrier - redistributing overwash onto barrier top')
-- 
2.43.0


From 61c441c159d636cf8b872d47c218da02e514cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 29/61] fix: overwash into a closed channel crashes where the
 barrier behind or in front of it is eroded in the same step

---
 hapuamod/mor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 1f9c1cc..1d189c3 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -258,8 +258,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         PutSedAtFront = VolUntilLevel >= 0.0
         PutSedAtBack = VolUntilLevel < 0.0
         VolUntilLevel[PutSedAtFront] *= CrestWidth[NegativeOutletWidth][PutSedAtFront]
-        VolUntilLevel[PutSedAtBack] *= -(ShoreY[NegativeOutletWidth,2][PutSedAtBack] - 
-                                         ShoreY[NegativeOutletWidth,3][PutSedAtBack])
+        VolUntilLevel[PutSedAtBack] *= -np.maximum(ShoreY[NegativeOutletWidth,2][PutSedAtBack] - 
+                                                   ShoreY[NegativeOutletWidth,3][PutSedAtBack], 0.0)
         assert np.all(VolUntilLevel >= 0.0), "Vol until level should not be negative"
         LeveledSections = VolToMove > VolUntilLevel
         PutSedAtFront[LeveledSections] = False
@@ -281,8 +281,9 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             ShoreZ[NegativeOutletWidth[LeveledSections],0] = (np.maximum(ShoreZ[NegativeOutletWidth[LeveledSections],0],
                                                                          ShoreZ[NegativeOutletWidth[LeveledSections],2]) + 
                                                               (VolToMove[LeveledSections] - VolUntilLevel[LeveledSections]) /
-                                                              (ShoreY[NegativeOutletWidth[LeveledSections],0] - 
-                                                               ShoreY[NegativeOutletWidth[LeveledSections],3]))
+                                                              np.maximum(ShoreY[NegativeOutletWidth[LeveledSections],0] - 
+                                                                         ShoreY[NegativeOutletWidth[LeveledSections],3],
+                                                                         CrestWidth[NegativeOutletWidth[LeveledSections]]))
             ShoreZ[NegativeOutletWidth[LeveledSections],1] = np.nan
             ShoreZ[NegativeOutletWidth[LeveledSections],2] = np.nan
             # Update OutletPresent variable to reflect removed section of channel
-- 
2.43.0


From 0a6d4d46bbd6949930cfaa7e61970ab0a0c51827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 30/61] fix: outlet channel pushed into the cliff gets a
 negative width

---
 hapuamod/mor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 1d189c3..d0d8f63 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,8 +446,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 CliffRetDist = (CliffOverlapDist / 
                                 (1 + ((PhysicalPars['BackshoreElev'] - ShoreZ[OutletChanIx[-1],2]) / 
                                       (ShoreZ[OutletChanIx[-1],2] - ShoreZ[OutletChanIx[-1],1]))))
-                ShoreY[OutletChanIx[-1], 4] -= CliffRetDist
-                ShoreY[OutletChanIx[-1], [2,3]] += (CliffOverlapDist - CliffRetDist)
+                # (no more than fills the channel)
+                ShoreY[OutletChanIx[-1], [2,3]] += min(CliffOverlapDist - CliffRetDist,
+                                                       ShoreY[OutletChanIx[-1], 1] - ShoreY[OutletChanIx[-1], 2])
+                ShoreY[OutletChanIx[-1], 4] = ShoreY[OutletChanIx[-1], 3]
     
     #%% Check for complete erosion of barrier between offline outlet channel and lagoon
     # This *should* only include offline/disconnected bits of outlet as online 
-- 
2.43.0


From a319165582d2342032d297444e19157f903b3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 31/61] fix: restoring an eroded barrier which does not breach
 can give a lagoon of negative width

---
 hapuamod/mor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d0d8f63..ea973bb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -614,6 +614,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                  (ShoreZ[NotBreachIx, 0] - ShoreZ[NotBreachIx, 3])))
             ShoreY[NotBreachIx,0] += ShoreShiftDist
             ShoreY[NotBreachIx,3] -= (OverlapDist - ShoreShiftDist)
+            ShoreY[NotBreachIx,4] = np.minimum(ShoreY[NotBreachIx,4], ShoreY[NotBreachIx,3])
     
     #%% Check for overtopping breach 
     
-- 
2.43.0


From c3b4e9c302e93621a0980c66b7eb321bb08d6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 32/61] fix: model crashes after filling an eroded outlet
 channel moves the shoreline behind the cliff toe

---
 hapuamod/mor.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index ea973bb..00814e4 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -223,16 +223,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
-    CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-    if np.any(CliffCollision):
-        logging.info('Shoreline/cliff collision - retreating cliff at X = %s', ShoreX[CliffCollision])
-        CliffOverlapDist = (ShoreY[CliffCollision,4] - ShoreY[CliffCollision,0]) + 0.001
-        CliffRetDist = (CliffOverlapDist / 
-                        (1 + ((PhysicalPars['BackshoreElev'] - ShoreZ[CliffCollision,0]) / 
-                              ShorefaceHeight[CliffCollision])))
-        ShoreY[CliffCollision, 4] -= CliffRetDist
-        ShoreY[CliffCollision, 3] = ShoreY[CliffCollision, 4]
-        ShoreY[CliffCollision, 0] += (CliffOverlapDist - CliffRetDist)
+    cliffCollision(ShoreX, ShoreY, ShoreZ, ShorefaceHeight, PhysicalPars)
     
     # Check if overwash has more than filled the lagoon and put the excess on top of the barrier
     LagoonFilled = ShoreY[:,3] < ShoreY[:,4]
@@ -563,6 +554,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         # Remove inner barrier now there's no outlet in the transect
         ShoreZ[ShoreIntersect, 0] = ShoreZ[ShoreIntersect, 2]
         ShoreZ[ShoreIntersect, 2] = np.nan
+        # The shoreline may now have eroded into the cliff
+        cliffCollision(ShoreX, ShoreY, ShoreZ, ShorefaceHeight, PhysicalPars)
     
     #%% ID locations where barrier completely eroded (and there is a lagoon)
     # should only apply to locations where there is no channel in barrier
@@ -714,3 +707,18 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     #%% Return updated MorDt (adaptive timestepping) and Closed/open status (opening happens in mor, closing in riv.assembleChannel)
     return (MorDt, Breach)
+
+def cliffCollision(ShoreX, ShoreY, ShoreZ, ShorefaceHeight, PhysicalPars):
+    """ Retreat the cliff anywhere the shoreline has eroded into it (modifies ShoreY in place)
+    """
+    CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
+    if np.any(CliffCollision):
+        logging.info('Shoreline/cliff collision - retreating cliff at X = %s', ShoreX[CliffCollision])
+        CliffOverlapDist = (ShoreY[CliffCollision,4] - ShoreY[CliffCollision,0]) + 0.001
+        CliffRetDist = (CliffOverlapDist / 
+                        (1 + ((PhysicalPars['BackshoreElev'] - ShoreZ[CliffCollision,0]) / 
+                              ShorefaceHeight[CliffCollision])))
+        ShoreY[CliffCollision, 4] -= CliffRetDist
+        ShoreY[CliffCollision, 3] = ShoreY[CliffCollision, 4]
+        ShoreY[CliffCollision, 0] += (CliffOverlapDist - CliffRetDist)
+
-- 
2.43.0


From 2989e543c33128dc017115271f5ebdbda6b86b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:32 +0000
Subject: [PATCH 33/61] fix: outlet channel truncated by the lagoon can be left
 starting on a transect eroded from the sea

---
 hapuamod/mor.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 00814e4..e940a14 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -330,18 +330,24 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     # 5. First check for collision between outlet channel and sea in upstream most transect of online outlet
     # Truncation is not possible here so we adjust the outlet channel position to prevent it...
-    if not Closed:
-        if ShoreY[OutletChanIx[0],1] >= ShoreY[OutletChanIx[0],0]:
+    # (allowing for transects about to be truncated at the lagoonward end)
+    FirstIx = 0
+    if OutletChanIx.size > 1 and np.any(ShoreY[OutletChanIx[:-1],2] <= ShoreY[OutletChanIx[:-1],3]):
+        FirstIx = np.where(ShoreY[OutletChanIx[:-1],2] <= ShoreY[OutletChanIx[:-1],3])[0][-1] + 1
+    for UsIx in OutletChanIx[FirstIx:]:
+        if ShoreY[UsIx,1] >= ShoreY[UsIx,0]:
             logging.info('Preventing seaward truncation at X = %.1fm as it would result in a length 0 outlet channel' % 
-                         ShoreX[OutletChanIx[0]])
-            ShoreShiftDist = 0.001 + (ShoreY[OutletChanIx[0],1] - ShoreY[OutletChanIx[0],0])
-            ShoreY[OutletChanIx[0],1] -= ShoreShiftDist
-            ShoreY[OutletChanIx[0],2] -= (ShoreShiftDist * 
-                                          (ShoreZ[OutletChanIx[0],0] - ShoreZ[OutletChanIx[0],1]) /
-                                          (ShoreZ[OutletChanIx[0],2] - ShoreZ[OutletChanIx[0],1]))
+                         ShoreX[UsIx])
+            ShoreShiftDist = 0.001 + (ShoreY[UsIx,1] - ShoreY[UsIx,0])
+            ShoreY[UsIx,1] -= ShoreShiftDist
+            ShoreY[UsIx,2] -= (ShoreShiftDist * 
+                               (ShoreZ[UsIx,0] - ShoreZ[UsIx,1]) /
+                               (ShoreZ[UsIx,2] - ShoreZ[UsIx,1]))
             # Note: this may have caused a new conflict between hte lagoonward 
             #       edge of the outlet channel and the lagoon or cliff, but 
             #       this will be delt with later.
+        if ShoreY[UsIx,2] > ShoreY[UsIx,3]:
+            break
     
     # 6. Check for collision between outlet channel and lagoon causing truncation 
     # of lagoonward end of outlet channel 
-- 
2.43.0


From 4afcc31be3720b9a061706ffeeabbdfe8030245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 34/61] fix: hotstart crashes as output times are read as
 cftime rather than datetime objects

---
 hapuamod/out.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 94d1cad..d23a89e 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -506,7 +506,9 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
         TimeIx = closestTimeIx(NcFile, DatetimeOfInterest)
     """
     NetCdfTimes = NcFile.variables['time'][:]
-    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units))
+    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units,
+                                                  only_use_cftime_datetimes=False,
+                                                  only_use_python_datetimes=True))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
     TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
-- 
2.43.0


From cc325109e91e2d0cfdc74f8fabadcac8f4f3821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 35/61] fix: hotstart crashes where the hotstart time is midway
 between two output times

---
 hapuamod/out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index d23a89e..b4b68ba 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -511,7 +511,7 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
                                                   only_use_python_datetimes=True))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
-    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
+    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0][:1]
     ClosestTime = OutputTimes[TimeIx].to_pydatetime()[0]
     
     return (TimeIx, ClosestTime)
-- 
2.43.0


From de1bdf4fc975d435cfff41ee2b68cc729c0ac827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 36/61] fix: wave direction read from the output file is always
 zero

---
 hapuamod/out.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index b4b68ba..45b2c66 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -473,7 +473,6 @@ def readTimestep(NcFile, TimeIx):
     Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
     
     WavePower=None
-    EDir_h=0
     LST = NcFile.variables['lst'][TimeIx,:] / 3600
     CST = NcFile.variables['cst'][TimeIx,:] / 3600
     
-- 
2.43.0


From 3677c2ebb42c8b250601887c6059583b28f8eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 37/61] fix: bedload transport at the outlet end is not written
 to the output file

---
 hapuamod/out.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 45b2c66..5e27758 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -403,6 +403,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
     NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
     NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
+    NcFile.variables['outlet_end_bedload'][TimeIx] = np.ravel(OutletEndBedload)[0]
     NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
     NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-- 
2.43.0


From 659001e5dfce7d636f5f2a1e30dff37b02d4dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 38/61] fix: fractions of a second of the timestep are lost
 from the timeseries output

---
 hapuamod/out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 5e27758..2d93647 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -649,6 +649,6 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sed_inflow'][TimeIx] = SedInflow
     NcFile.variables['outlet_end_x'][TimeIx,:] = OutletEndX
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-    NcFile.variables['mordt'][TimeIx] = MorDt.seconds
+    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
     
     NcFile.close()
\ No newline at end of file
-- 
2.43.0


From 1db7dc089a0289cedc782c626d7a41ca445512b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 39/61] fix: wave direction is in radians relative to shore
 normal in the output files but labelled as degrees

---
 hapuamod/out.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 2d93647..dff068d 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -138,8 +138,8 @@ def newOutFile(FileName, ModelName, StartTime,
     
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
-    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
+    WaveDirVar.units = 'radians'
+    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth), relative to shore normal'
     
     #%% create shore-transect data variables
     
@@ -576,8 +576,8 @@ def newTsOutFile(FileName, ModelName, StartTime, Overwrite=False):
     # wave direction boundary condition
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
-    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
+    WaveDirVar.units = 'radians'
+    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth), relative to shore normal'
     
     #%% create other timeseries variables
     
-- 
2.43.0


From 56b97f9012172286035409ae524ca053b8027db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 40/61] fix: model crashes in the last time step where an input
 series ends at the end time

---
 hapuamod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 19a08e0..36abad0 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -250,7 +250,7 @@ def interpolate_at(Df, New_idxs):
                 specified time.
     """
     FromIx = np.where(Df.index <= New_idxs[0])[0][-1]
-    ToIx = np.where(Df.index >= New_idxs[-1])[0][0]
+    ToIx = np.append(np.where(Df.index >= New_idxs[-1])[0], len(Df)-1)[0]
     Selected = Df[FromIx:ToIx+1]
     Selected = Selected.reindex(Selected.index.append(New_idxs).unique())
     Selected = Selected.sort_index()
-- 
2.43.0


From 42c0d4303178e6c51a6ff610e8919e91a68f3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 41/61] fix: fractions of a second of the hydraulic timestep
 are lost

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 9ef24b6..566afbd 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -129,7 +129,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
-    dt = dt.seconds          # timestep for hydraulics [s]
+    dt = dt.total_seconds()  # timestep for hydraulics [s]
     N = z.size               # number of cross-sections
     S_0 = (z[:-1]-z[1:])/dx  # bed slope in each reach between XS [m/m]
     
-- 
2.43.0


From b7bff5d598c0d39740babbeb6dff7957a3f9b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 42/61] fix: model crashes on loading where the river bed is
 level

---
 hapuamod/loadmod.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d7d8304..929d900 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -291,11 +291,9 @@ def loadModel(ModelConfigFile):
         IniCond = Config['InitialConditions']
         
         #%% Initialise river variables
-        RiverElev = np.flipud(np.arange(IniCond['LagoonBed'],
-                                        IniCond['LagoonBed']
-                                        + PhysicalPars['RiverSlope']
-                                        * PhysicalPars['UpstreamLength'],
-                                        PhysicalPars['RiverSlope'] * Dx))
+        RiverElev = np.flipud(IniCond['LagoonBed']
+                              + PhysicalPars['RiverSlope']
+                              * np.arange(0, PhysicalPars['UpstreamLength'], Dx))
     
     #%% Read/initialise spatial inputs
     if Config['HotStart']['InitialConditionsNetCDF'] is not None:
-- 
2.43.0


From 788284be81c61bab8454e3df64f9d17d975664c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 43/61] fix: no transect exactly at the river where multiples
 of the transect spacing are rounded

---
 hapuamod/loadmod.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 929d900..7db8863 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -334,8 +334,9 @@ def loadModel(ModelConfigFile):
         ShoreNormDir = 0.0
         
         # Create key shore parrallel variables
-        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx)*Dx, 
-                           Config['SpatialInputs']['ShorelineLengthRight'] + Dx, Dx)
+        # (integer multiples of Dx so there is always a transect at exactly X=0)
+        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx), 
+                           Config['SpatialInputs']['ShorelineLengthRight']/Dx + 1) * Dx
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
@@ -453,8 +454,9 @@ def loadModel(ModelConfigFile):
         assert np.all(np.diff(IniShoreCoords2[:,0]) > 0), 'Shoreline includes recurvature incompatible with model coordinate system'
         
         # Discretise shoreline at fixed intervals in model coordinate system
-        ShoreX = np.arange(math.ceil(IniShoreCoords2[0,0]/Dx)*Dx, 
-                           IniShoreCoords2[-1,0], Dx)
+        # (integer multiples of Dx so there is always a transect at exactly X=0)
+        ShoreX = np.arange(math.ceil(IniShoreCoords2[0,0]/Dx), 
+                           IniShoreCoords2[-1,0]/Dx) * Dx
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
-- 
2.43.0


From 9021c20fc311f1f0dcd7d4e53eb8e4351d8e40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 44/61] fix: outlet channel one transect spacing too long where
 multiples of the spacing are rounded

---
 hapuamod/riv.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 566afbd..deae089 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -462,12 +462,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     LagoonWidth[OnlineLagoon]])
     else: # open
         ChanDx = np.full(RiverElev.size + OnlineLagoon.size + OutletChanIx.size + 1, Dx)
-        if OutletEndX[0] < OutletEndX[1]:
-            # Outlet angles from L to R
-            ChanDx[-2] += OutletEndX[1] % Dx
-        else:
-            # Outlet from R to L
-            ChanDx[-2] += (-OutletEndX[1]) % Dx
+        ChanDx[-2] += np.abs(OutletEndX[1] - ShoreX[OutletChanIx[-1]])
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From 5940cd2cd209f94857682e7fd726b36954a9e728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 45/61] fix: hotstart refused where the transect spacing is not
 exact in single precision

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 7db8863..dc922cd 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -320,7 +320,7 @@ def loadModel(ModelConfigFile):
         
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
-        assert ShoreX[1] - ShoreX[0] == Dx, 'Dx specified in model config file must match hotstart file'
+        assert np.isclose(ShoreX[1] - ShoreX[0], Dx, atol=0.001), 'Dx specified in model config file must match hotstart file'
         
     elif Config['SpatialInputs']['Shoreline'] is None:
         #%% Initialise model with default straight shoreline etc
-- 
2.43.0


From 956b0f46c53cb0e7ee4b2cba7d0512aa392bc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 46/61] fix: small morphological changes are lost after a
 hotstart as the state is held in single precision

---
 hapuamod/loadmod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index dc922cd..66dfae6 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -318,6 +318,13 @@ def loadModel(ModelConfigFile):
          LST, CST, Closed, RiverElev, RiverWL, RiverVel, ModelTime) = \
             out.readTimestep(NcFile, TimeIx)
         
+        # Switch from single (netCDF file) to double precision so small changes aren't lost
+        ShoreX = np.asarray(ShoreX, dtype=float)
+        RiverElev = np.asarray(RiverElev, dtype=float)
+        OutletEndX = np.asarray(OutletEndX, dtype=float)
+        OutletEndWidth = np.asarray(OutletEndWidth, dtype=float)
+        OutletEndElev = np.asarray(OutletEndElev, dtype=float)
+        
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
         assert np.isclose(ShoreX[1] - ShoreX[0], Dx, atol=0.001), 'Dx specified in model config file must match hotstart file'
-- 
2.43.0


From c8e509778d785a79b28cb153782a54206781e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 47/61] fix: synthetic flow and sea level do not always extend
 over the full model duration

---
 hapuamod/loadmod.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 66dfae6..edf96bc 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -596,8 +596,10 @@ def loadModel(ModelConfigFile):
             HydrographStart = pd.to_datetime(SNPars['HydrographStart'])
         else:
             HydrographStart = TimePars['StartTime']
-        FlowTs = synth.shotNoise(HydrographStart, TimePars['EndTime'], 
-                                 pd.Timedelta(minutes = SNPars['HydrographDt']),
+        HydrographDt = pd.Timedelta(minutes = SNPars['HydrographDt'])
+        FlowTs = synth.shotNoise(HydrographStart, 
+                                 TimePars['EndTime'] + TimePars['MorDtMax'] + HydrographDt, 
+                                 HydrographDt,
                                  pd.Timedelta(days = SNPars['MeanDaysBetweenEvents']), 
                                  SNPars['MeanEventIncrease'], 
                                  SNPars['FastDecayRate'], SNPars['FastFlowProp'], 
@@ -631,9 +633,10 @@ def loadModel(ModelConfigFile):
     if Config['BoundaryConditions']['SeaLevel'].lower() == 'harmonic':
         logging.info('Harmonic tidal boundary specified')
         HTPars = Config['BoundaryConditions']['HarmonicTideParameters']
-        SeaLevelTs = synth.harmonicTide(TimePars['StartTime'], TimePars['EndTime'], 
-                                        pd.Timedelta(minutes = HTPars['SeaLevelDt']),
-                                        HTPars['MeanSeaLevel'], HTPars['TidalRange'])
+        SeaLevelDt = pd.Timedelta(minutes = HTPars['SeaLevelDt'])
+        SeaLevelTs = synth.harmonicTide(TimePars['StartTime'], 
+                                        TimePars['EndTime'] + TimePars['MorDtMax'] + SeaLevelDt, 
+                                        SeaLevelDt, HTPars['MeanSeaLevel'], HTPars['TidalRange'])
     else:
         Config['BoundaryConditions']['SeaLevel'] = \
                 os.path.join(ConfigFilePath, Config['BoundaryConditions']['SeaLevel'])
-- 
2.43.0


From eea8fe53ff27c3a44d3361efa838bcd38d9e3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 48/61] fix: synthetic flow hydrograph has missing values where
 the rising limb is longer than the interval

---
 hapuamod/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 848b7db..37a9120 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -156,7 +156,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
         # EventList = EventList.append(pd.Series([EventSize], index = pd.DatetimeIndex([LastEventTime])))
     
     # Resample the output timeseries and clip
-    OutputTs = OutputTs.resample(OutputInt).mean()
+    OutputTs = OutputTs.resample(OutputInt).mean().interpolate()
     OutputTs = OutputTs.loc[:EndDate]    
     
     return OutputTs
-- 
2.43.0


From 098d2ab74f0f99c0b0e91ff21779fabf3183c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 49/61] fix: synthetic flow hydrograph crashes with a single
 decay rate

---
 hapuamod/synth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 37a9120..d0f6d14 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -84,6 +84,9 @@ def shotNoise(StartDate, EndDate, OutputInt,
     if PropRate1 < 1:
         assert not DecayRate2 is None, 'If PropRate1 is less than 1 then DecayRate2 must be specified'
         assert DecayRate2 > 0, 'DecayRate must be greater than 0'
+    elif DecayRate2 is None:
+        # Not used as no flow decays at this rate
+        DecayRate2 = DecayRate1
     assert RisingLimbTime > pd.Timedelta(days=0), 'Rising limb time must be greater than 0'
     if CalcTimeInt is None:
         CalcTimeInt = OutputInt/4
-- 
2.43.0


From 80edae02fc89f96b13c9109387e8af9ff05d9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 50/61] fix: part days are dropped from the mean time between
 events of a synthetic flow hydrograph

---
 hapuamod/synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index d0f6d14..9fcc34f 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -95,7 +95,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     r = random.Random(RandomSeed)
     
     # Calculation additional (derived) input parameters
-    EventRate = 1/MeanTimeBetweenEvents.days
+    EventRate = 1 / (MeanTimeBetweenEvents.total_seconds() / 86400)
     PropRate2 = 1-PropRate1
     Rate1Vals = [MeanEventIncrease * (PropRate1 / DecayRate1) * EventRate]
     Rate2Vals = [MeanEventIncrease * (PropRate2 / DecayRate2) * EventRate]
@@ -103,7 +103,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     
     logging.info('Generating synthetic shot-noise timeseries for period %s to %s' % (StartDate, EndDate))
     logging.debug('MeanTimeBetweenEvents = %f days, MeanEventIncrease = %f m3/s, DecayRate1 = %f' %  
-                  (MeanTimeBetweenEvents.days, MeanEventIncrease,DecayRate1))
+                  (MeanTimeBetweenEvents.total_seconds() / 86400, MeanEventIncrease,DecayRate1))
     logging.debug('PropRate1 = %f, DecayRate2 = %f, RisingLimbTime = %f hours' % 
                   (PropRate1, DecayRate2, RisingLimbTime.total_seconds() / 3600))
     logging.info('Estimated mean value of generated timeseries = %.3f' % MeanVal)
-- 
2.43.0


From c417a3d7250931e013935b9becae10104e52a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 51/61] fix: model is flipped where the land is to the south of
 the shoreline

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index edf96bc..9baa0b3 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -444,7 +444,7 @@ def loadModel(ModelConfigFile):
                       (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
                      (Baseline[0] + 1/Baseline[0]))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
-        if ((InflowCoord[0] * Baseline[0] + Baseline[1])>0):
+        if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
             ShoreNormDir = math.atan2(Baseline[0],-1)
         else:
-- 
2.43.0


From ea54325dde9198924d3c207ff3069ea41f51c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 52/61] fix: model crashes on loading where the shoreline runs
 exactly east-west

---
 hapuamod/loadmod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 9baa0b3..2785f9c 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -440,9 +440,9 @@ def loadModel(ModelConfigFile):
         
         # Defin origin point on baseline (in line with river inflow)
         Origin = np.empty(2)
-        Origin[0] = ((InflowCoord[1] + 
-                      (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
-                     (Baseline[0] + 1/Baseline[0]))
+        Origin[0] = ((InflowCoord[0] + 
+                      Baseline[0] * (InflowCoord[1] - Baseline[1])) / 
+                     (1 + Baseline[0]**2))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
         if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
-- 
2.43.0


From a6d835a1c4fa0b22bcefa33096e13e59f7ba4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 53/61] fix: initial outlet straight out between transects is
 put in the wrong place

---
 hapuamod/loadmod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 2785f9c..2c25537 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -527,10 +527,10 @@ def loadModel(ModelConfigFile):
         if np.all(np.logical_not(OutletMask)):
             # Handle special case that outlet is straight out and didn't intersect any transects
             if OutletToR:
-                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,1])//Dx)
+                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,0])//Dx)
                 OutletEndX[1] = OutletEndX[0] + Dx/2
             else:
-                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,1])//Dx) + 1)
+                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,0])//Dx) + 1)
                 OutletEndX[1] = OutletEndX[0] - Dx/2
             
             OutletMask = ShoreX == OutletEndX[0]
-- 
2.43.0


From 77752ea79c0c25f03f9a5338e2fc8f8526b423de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 54/61] fix: initial outlet straight out between transects
 overlaps the lagoon

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 2c25537..c852e7d 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -538,7 +538,7 @@ def loadModel(ModelConfigFile):
             ShoreY[OutletMask,1] = min(ShoreY[OutletMask,0] - PhysicalPars['SpitWidth'], 
                                        (ShoreY[OutletMask,0] + ShoreY[OutletMask,3])/2 + IniCond['OutletWidth']/2)
             ShoreY[OutletMask,2] = ShoreY[OutletMask,1] - IniCond['OutletWidth']
-            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] + 0.001, ShoreY[OutletMask,3])
+            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] - 0.001, ShoreY[OutletMask,3])
         else:
             if OutletToR:
                 # Outlet angles from L to R
-- 
2.43.0


From b3d2f1bc92ac0dd9772dfc1645166f33bed6689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 55/61] fix: offshore wave height multiplies by the group
 velocity ratio instead of dividing by it

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 2e8b7f7..9ec233a 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -50,7 +50,7 @@ WaveData['Angle_Offshore'] = np.arcsin(np.maximum(np.minimum(WaveData['LoffRatio
                                                              np.sin(WaveData['Angle_h']), 
                                                              1.0), -1.0)) # min and max is to prevent tiny irregularities generating complex numbers due to calculation of asin(>1) or asin(<-1)
 OutputData['Hsig_Offshore'] = (WaveData['Hsig'] / 
-                               np.sqrt(0.5 * WaveData['n_h'] * WaveData['LoffRatio'] * 
+                               np.sqrt(0.5 / WaveData['n_h'] * WaveData['LoffRatio'] * 
                                        (np.cos(WaveData['Angle_Offshore']) / 
                                         np.cos(WaveData['Angle_h']))))
 
-- 
2.43.0


From 61e038f4fa97230214fe06a350ea6b6cd5ad7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:27 +0000
Subject: [PATCH 56/61] fix: minutes of the wave model times are dropped

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 9ec233a..4c0ad38 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -12,7 +12,7 @@ ColNames = ['ModelTime', 'Year', 'Month', 'Day', 'Hour', 'Min',
 
 WaveData = pd.read_table(WaveModelOutputFile, sep=' ', skipinitialspace=True,
                          skiprows=27, names=ColNames)
-WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:5])
+WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:6].rename(columns={'Min': 'Minute'}))
 WaveData = WaveData.set_index('DateTime')
 
 # Extract the columns we want
-- 
2.43.0


From d06e3bb564d5499d8c062bdc4d506294047844e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:56 +0000
Subject: [PATCH 57/61] fix: left bank of a rightward outlet drawn at the level
 of the right bank

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 49ea3e8..5ef1cf6 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -344,7 +344,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                                    np.NaN, # Extra point
                                    np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])])
             OutletRbY[-2] = (OutletRbY[-1]-SpitWidth + OutletRbY[-3])/2
-            OutletLbY[-3] = np.min(OutletRbY[[-1,-3]])
+            OutletRbY[-3] = np.min(OutletRbY[[-1,-3]])
         else:
             # Outlet right bank angles R to L
             R_Ok = ShoreX[OutletChanIx] > OutletDsRbX
-- 
2.43.0


From 28c02ad52a774153a3dff8d59bf4cfb5715ed819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 58/61] fix: cliff hatching at the right hand edge uses the
 alongshore position as its offshore one

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 5ef1cf6..eac63b4 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -223,7 +223,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                              np.flipud(RiverLbY),   # River LB
                              -5000.0, CliffToLY[0], # LH Edge of domain
                              np.nan,                # Break to separate L and R polygons
-                             CliffToRX[-1],-5000.0, # RH Edge of domain
+                             CliffToRY[-1],-5000.0, # RH Edge of domain
                              RiverRbY,              # River RB
                              CliffToRY])            # Cliff RHS
     
-- 
2.43.0


From 8e97285d2b384c9f8fbc5688466b0850a6a64dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:29 +0000
Subject: [PATCH 59/61] fix: maps cannot be started from a closed outlet

---
 hapuamod/animate.py   | 3 ++-
 hapuamod/core.py      | 3 ++-
 hapuamod/visualise.py | 8 +++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/hapuamod/animate.py b/hapuamod/animate.py
index 14c784c..4123aa4 100644
--- a/hapuamod/animate.py
+++ b/hapuamod/animate.py
@@ -193,7 +193,8 @@ def main(ResultsFile, AnimationFile, StartTimestep=0, EndTimestep=None,
                                        OutletChanIx, RiverWidth, SpitWidth,
                                        ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
                                        WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest)
+                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest,
+                                       Closed=Closed)
         FigToAnimate = ModelFig['PlanFig']
         
         # Set up animation function
diff --git a/hapuamod/core.py b/hapuamod/core.py
index 36abad0..b8df7d0 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -94,7 +94,8 @@ def main(ModelConfigFile, Overwrite=False):
                                        PhysicalPars['SpitWidth'], ShoreZ=ShoreZ, 
                                        WavePower=0, EDir_h=0, 
                                        LST=np.zeros(ShoreX.size-1),
-                                       CST=np.zeros(ShoreX.size))
+                                       CST=np.zeros(ShoreX.size),
+                                       Closed=Closed)
         
     #%% Main timestepping loop
     MorTime = TimePars['StartTime']
diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index eac63b4..8e6d898 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -67,7 +67,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
               RiverWidth, SpitWidth,
               ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
               WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None):
+              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None, Closed=False):
     """ Map the current model state in model coordinates
     
         Parameters:
@@ -87,6 +87,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
             LstScaling (optional, default = 0.0001)
             QuiverWidth (optional, default = 0.002)
             AreaOfInterest (optional)
+            Closed (boolean, optional, default = False): is the outlet closed?
             
         Returns:
             ModelFig (dict): handles for the various parts of the plot. Used as
@@ -174,8 +175,9 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
     
     # Update plot with correct data
     updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
-                    OutletChanIx, ShoreZ=ShoreZ, WavePower=WavePower, 
-                    EDir_h=EDir_h, LST=LST, CST=CST, PlotTime=PlotTime)
+                    OutletChanIx, Closed=Closed, ShoreZ=ShoreZ, 
+                    WavePower=WavePower, EDir_h=EDir_h, LST=LST, CST=CST, 
+                    PlotTime=PlotTime)
     
     return ModelFig
 
-- 
2.43.0


From 166a2a5d74fdf150193f4465487c39edc363c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:01 +0000
Subject: [PATCH 60/61] fix: floods which begin while several earlier ones are
 still rising

---
 hapuamod/synth.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 9fcc34f..8332c2f 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -123,15 +123,15 @@ def shotNoise(StartDate, EndDate, OutputInt,
           
             # Insert new (interpolated) time into output TS at start of new events rising limb
             OutputTs = OutputTs.append(pd.Series(np.interp(pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime]).values.astype(float), 
-                                                           OutputTs.index[-2:].values.astype(float), 
-                                                           OutputTs[-2:]),
+                                                           OutputTs.index.values.astype(float), 
+                                                           OutputTs),
                                                  index = pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime])))
             OutputTs.sort_index(inplace=True)
             
-            # Increase the flow at the last time in the output TS (as its part way through the rising limb of the next event)
-            OutputTs[-1] += np.interp(OutputTs.index[-1:].values.astype(float), 
-                                      pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]).values.astype(float), 
-                                      [0, EventSize])
+            # Increase the flow at all times in the output TS which are part way through the rising limb of the next event
+            OutputTs += np.interp(OutputTs.index.values.astype(float), 
+                                  pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]).values.astype(float), 
+                                  [0, EventSize])
             
             # Add a new data point at the peak of the new event
             TimeList = pd.DatetimeIndex([LastEventTime + GapLength])
-- 
2.43.0


From 59f412409bf63195e6fd45689b18d3349251e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:57 +0000
Subject: [PATCH 61/61] fix: seepage through the barrier of a closed lagoon
 used the lagoon level as the old sea level in the first hydraulic step of
 each call

---
 hapuamod/riv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index deae089..3a12b51 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -157,7 +157,11 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     # Pre-compute some variables required for the start of the first timestep of the loop
     A = h*B                                # area of flow at each XS [m^2]
     Sf = V*np.abs(V) * (n**2) / (h**(4/3)) # friction slope at each XS [m/m]
-    DsWl = z[-1] + h[-1]
+    if Closed:
+        # Downstream end of closed channel is not connected to the sea
+        DsWl = DsWl_Ts[0]
+    else:
+        DsWl = z[-1] + h[-1]
     
     # Main timestepping loop
     for StepNo in range(Q_Ts.shape[0]):
-- 
2.43.0

