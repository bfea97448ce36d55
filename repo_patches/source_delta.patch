From 30b0411789040196c1c721e8ef0bba042f65462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:44 +0000
Subject: [PATCH 01/30] fix: no longshore transport for waves directed offshore
 of a shore segment

---
 hapuamod/coast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index 2da6eab..ec72221 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -75,7 +75,7 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
     BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
     
-    LST = - PhysicalPars['K2coef'] * WavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
+    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
     return LST
 
-- 
2.43.0


From bb5220080c01778ed5bc3109b770c3292d688810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 02/30] fix: spacing to the outlet end when a leftward outlet
 ends exactly on a transect

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1dba573..fd536bd 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -458,7 +458,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             ChanDx[-2] += OutletEndX[1] % Dx
         else:
             # Outlet from R to L
-            ChanDx[-2] += Dx - (OutletEndX[1] % Dx)
+            ChanDx[-2] += ShoreX[OutletChanIx[-1]] - OutletEndX[1]
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From 49c298bf1f683382dbcff8297b3a7c1dd6142bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 03/30] fix: attach the lagoon left of the river when the
 outlet is in line with it

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index fd536bd..72ae0f7 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -395,8 +395,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             OnlineLagoon = np.array([X0Ix])
             EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
             EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
-        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
-        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
+        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
+        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     elif OutletEndX[0] > 0:
         # Outlet channel to right of river
         if Closed:
-- 
2.43.0


From e6eb667c4c60c4be2d416c29f995d00337e7e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 04/30] fix: keep both offline lagoon areas when only one
 lagoon transect is online

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 72ae0f7..663f4fb 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -470,7 +470,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     np.full(2, OutletEndWidth)])
     LagArea = np.zeros(ChanElev.size)
     LagArea[RiverElev.size] = StartArea
-    LagArea[RiverElev.size + OnlineLagoon.size - 1] = EndArea
+    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
     LagLen = (ChanFlag==1) * Dx
     LagLen[RiverElev.size] += StartLen
     LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
-- 
2.43.0


From 5de181312aa065ec437741492f05dd7d61abb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 05/30] fix: steady solver falls back to critical depth when
 its iteration breaks down

If the Newton gradient is exactly zero the depth becomes nan, which ended
the iteration and was returned to the caller.
---
 hapuamod/riv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 663f4fb..873ca60 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -61,7 +61,8 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
             assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'
         
         # Check for supercritical
-        if ChanDep[XS] < CritDep[XS]:
+        # (or an iteration which has broken down i.e. ChanDep[XS] is nan)
+        if not ChanDep[XS] >= CritDep[XS]:
             ChanDep[XS] = CritDep[XS]
             logging.warning('Steady state solution results in critical depth at XS%i' % XS)
         ChanVel[XS] = Qin / (ChanWidth[XS] * ChanDep[XS])
-- 
2.43.0


From ee93b1c6f8341d6c8568ee1e975ac189f2f8ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 06/30] fix: count all of the lagoon area attached to the last
 section of a closed channel

The end sections only represent half a reach, so spreading the attached area
over a whole reach lost half of its storage.
---
 hapuamod/riv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 873ca60..c0a5a8b 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -136,9 +136,10 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
-    dx2[0] = dx[0]
+    # (end XS only represent half a reach)
+    dx2[0] = dx[0]/2
     dx2[1:-1] = (dx[:-1]+dx[1:])/2
-    dx2[-1] = dx[-1]
+    dx2[-1] = dx[-1]/2
     Be = B + LagArea/dx2
     
     # Calculate ratio of length over which seepage occurs, to length of reach, for each reach
-- 
2.43.0


From aea5cab30da1987c8768ff4931ff419113416458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 07/30] fix: hand the steady fallback state to the caller of
 the unsteady solver

The fallback was bound to local names, so the caller kept the diverged state,
and it used the boundary values of the last rather than the current step.
---
 hapuamod/riv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index c0a5a8b..b1dcd9d 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -303,7 +303,9 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h, V) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q, DsWl, NumericalPars)
+            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
+            A = h*B
 
 def assembleChannel(ShoreX, ShoreY, ShoreZ, 
                     OutletEndX, OutletEndWidth, OutletEndElev, 
-- 
2.43.0


From 760270ddd7298200f4dbe92da7f223d6e7d31ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 08/30] fix: solve again after perturbing a singular matrix in
 the unsteady solver

The perturbed matrix was never used: the correction was undefined or left
over from the previous iteration.
---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index b1dcd9d..93a9e83 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -270,6 +270,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             except linalg.LinAlgError as ErrMsg:
                 logging.warning('LinAlgError %s - adding some noise to see if this fixes it...' % ErrMsg)
                 a_banded += np.random.random(a_banded.shape) * 1e-7 - 5e-8
+                Delta = linalg.solve_banded([2,2],a_banded,Err)
             
             # Update h & V
             h -= Delta[np.arange(0,2*N,2)]
-- 
2.43.0


From 259caae51cf44a1fdebd4fad78bfe60c98325dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 09/30] fix: keep fractions of a second and whole days in the
 hydraulic timestep

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 93a9e83..ef639a4 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -126,7 +126,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
-    dt = dt.seconds          # timestep for hydraulics [s]
+    dt = dt.total_seconds()  # timestep for hydraulics [s]
     N = z.size               # number of cross-sections
     S_0 = (z[:-1]-z[1:])/dx  # bed slope in each reach between XS [m/m]
     
-- 
2.43.0


From febcebe9981f79d25b088dd612a0a1b3f0861c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:43 +0000
Subject: [PATCH 10/30] fix: take leftward drift out of the outlet channel as a
 rate, not as an immediate shift

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 75ccc14..3d1a7eb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -149,8 +149,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndXMoveRate += WidthReductionRate/2
         else:
             # Transport from R to L
-            ShoreY[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
-                                            / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
+            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
+                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                   / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
-- 
2.43.0


From 1bf6ad26b551eb0a0146fd5a5fa4e2078e006082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:59 +0000
Subject: [PATCH 11/30] fix: overtopping breach check no longer raises the
 barrier crest in front of relic channels

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 3d1a7eb..9f87cae 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -598,7 +598,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-    CrestHeight = ShoreZ[:,0] # default
+    CrestHeight = ShoreZ[:,0].copy() # default
     CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
     CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan,0] # transects with connected channels (active or relic)
     assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
-- 
2.43.0


From c2cd820837c3af69a7a0c738c92f846447c648b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:20 +0000
Subject: [PATCH 12/30] fix: keep fractions of a second and whole days in the
 morphological timestep

---
 hapuamod/mor.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 9f87cae..4d87deb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -180,22 +180,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndAggRate),
                            abs(OutletEndXMoveRate))
     
-    while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
+    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
         MorDt /= 2
-        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
-    while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
         MorDt *= 2
-        logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
     #  1. issue warning
     #  2. limit change (while preserving sign) to prevent model blowing up (even though this may be at the expense of mass balance)
-    if MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        assert MorDt.seconds <= TimePars['MorDtMin'].seconds
+    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
         logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',
-                        MaxMorChangeRate * MorDt.seconds, NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
-        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.seconds
+                        MaxMorChangeRate * MorDt.total_seconds(), NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
+        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
         RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
@@ -206,13 +206,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Update morphology
         
     # note that += modifies variables in place so no need to explicitly return them!
-    RiverElev[1:] += RivBedAggRate * MorDt.seconds
-    ShoreZ += ShoreZChangeRate * MorDt.seconds
-    ShoreY += ShoreYChangeRate * MorDt.seconds
+    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
+    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
+    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
-        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.seconds
-        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.seconds
-        OutletEndX[1] += OutletEndXMoveRate * MorDt.seconds
+        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
+        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
     #%% 1. Check if outlet has extended too close to the edge of the domain
     if OutletEndX[1] < ShoreX[1]:
-- 
2.43.0


From 12e0b33618fee4a756621eab861dcc9178b4bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:45 +0000
Subject: [PATCH 13/30] fix: search for connected relic channel stops at the
 edges of the domain

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 4d87deb..a94c54a 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -491,12 +491,12 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         
     # Find additional connected bits of relic outlet channel
     if not np.isnan(ConnectedChanMinMax[0]):
-        while WideEnoughChannel[ConnectedChanMinMax[0]-1]:
+        while ConnectedChanMinMax[0] > 0 and WideEnoughChannel[ConnectedChanMinMax[0]-1]:
             WaterLevel[ConnectedChanMinMax[0]-1] = WaterLevel[ConnectedChanMinMax[0]]
             ConnectedChanMinMax[0] -= 1
     
     if not np.isnan(ConnectedChanMinMax[1]):
-        while WideEnoughChannel[ConnectedChanMinMax[1]+1]:
+        while ConnectedChanMinMax[1] < ShoreX.size-1 and WideEnoughChannel[ConnectedChanMinMax[1]+1]:
             WaterLevel[ConnectedChanMinMax[1]+1] = WaterLevel[ConnectedChanMinMax[1]]
             ConnectedChanMinMax[1] += 1
             
-- 
2.43.0


From ce9842cc83757b2e7658b7c1d361663e2911e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:10 +0000
Subject: [PATCH 14/30] fix: lagoon/sea intersection flags were uninitialised
 where there is no outlet channel

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index a94c54a..a168477 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,7 +446,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #
     # Remove old outlet channel and preserve sediment mass balance
     
-    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]))
+    LagoonIntersect = np.less_equal(ShoreY[:,2], ShoreY[:,3]) # (False where there is no outlet channel)
     if np.any(LagoonIntersect):
         for IntersectIx in np.where(LagoonIntersect)[0]:
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
@@ -516,7 +516,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     Breach = False
     BreachIx = np.nan
     
-    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]))
+    ShoreIntersect = np.less_equal(ShoreY[:,0], ShoreY[:,1]) # (False where there is no outlet channel)
     if np.any(ShoreIntersect):
         # If lagoon closed then check if channel at any eroded location(s) is connected to lagoon via relic channel
         if Closed and np.any(ShoreIntersect[ConnectedChan]):
-- 
2.43.0


From 7d096482b98171fb7cf10e1579200a908eade8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:32 +0000
Subject: [PATCH 15/30] fix: remove the inner barrier too when an outlet
 channel dissolves into the lagoon

---
 hapuamod/mor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index a168477..72dddeb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -459,6 +459,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreY[LagoonIntersect, 1] = np.nan
         ShoreY[LagoonIntersect, 2] = np.nan
         ShoreZ[LagoonIntersect, 1] = np.nan
+        ShoreZ[LagoonIntersect, 2] = np.nan
+        OutletPresent[LagoonIntersect] = False
     
     #%% ID locations where existing or relic outlet channel is connected to lagoon
     # Also update WaterLevel variable to include outlet channel water level 
-- 
2.43.0


From d61f4b60c664a985303608f03c9f73ef03218af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:39 +0000
Subject: [PATCH 16/30] fix: with an open outlet only spill closer to the river
 than the outlet can breach

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 72dddeb..42288b4 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -629,7 +629,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 PossBreachTsects.append(TsectIx)
         PossBreachTsects = np.array(PossBreachTsects)
         
-        if PossBreachTsects.size == 0 and not Closed:
+        if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
             # is closer to where river enters lagoon than existing outlet
             CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
-- 
2.43.0


From de8fac1659097c11848ad7e56345432854cb91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:10 +0000
Subject: [PATCH 17/30] fix: recognise whether a breach is on a connected
 channel by transect

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 42288b4..69a331a 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -653,7 +653,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     #%% Create breach if one has been triggered
     if Breach:
-        if BreachIx in ConnectedChan:
+        if ConnectedChan[BreachIx]:
             # Outlet truncation breach
             logging.info('Breach on pre-existing outlet channel at X = %.1fm' % ShoreX[BreachIx])
             OutletEndX[1] = ShoreX[BreachIx]
-- 
2.43.0


From dc9e24b53f4bde7fbed5116c530aeaa1ef76164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:10 +0000
Subject: [PATCH 18/30] fix: keep the channel at the transect where it breaches
 to the sea

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 69a331a..ab32076 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -528,7 +528,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             PossBreachTsects = np.where(np.logical_and(ShoreIntersect, ConnectedChan))[0]
             ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])
             BreachIx = PossBreachTsects[np.argmin(ChanLength)]
-            ShoreIntersect = ShoreIntersect[ShoreIntersect!=BreachIx]
+            ShoreIntersect[BreachIx] = False
     
         # Adjust ShoreY where outlet banks intersects coast or lagoon    
         for IntersectIx in np.where(ShoreIntersect)[0]:
-- 
2.43.0


From 1bad63d7f48c4db0e12a2031aca61444f7c0b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:10 +0000
Subject: [PATCH 19/30] fix: no breach at the end transects, where the outlet
 would leave the domain

---
 hapuamod/mor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index ab32076..cf986fe 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -493,12 +493,12 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         
     # Find additional connected bits of relic outlet channel
     if not np.isnan(ConnectedChanMinMax[0]):
-        while ConnectedChanMinMax[0] > 0 and WideEnoughChannel[ConnectedChanMinMax[0]-1]:
+        while ConnectedChanMinMax[0] > 1 and WideEnoughChannel[ConnectedChanMinMax[0]-1]:
             WaterLevel[ConnectedChanMinMax[0]-1] = WaterLevel[ConnectedChanMinMax[0]]
             ConnectedChanMinMax[0] -= 1
     
     if not np.isnan(ConnectedChanMinMax[1]):
-        while ConnectedChanMinMax[1] < ShoreX.size-1 and WideEnoughChannel[ConnectedChanMinMax[1]+1]:
+        while ConnectedChanMinMax[1] < ShoreX.size-2 and WideEnoughChannel[ConnectedChanMinMax[1]+1]:
             WaterLevel[ConnectedChanMinMax[1]+1] = WaterLevel[ConnectedChanMinMax[1]]
             ConnectedChanMinMax[1] += 1
             
@@ -563,6 +563,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                     PossBreachTsects.append(TsectIx)
             else: # TsectIx == X0Ix
                 PossBreachTsects.append(TsectIx)
+        # (no breach at the ends of the domain as the outlet has to stay inside it)
+        PossBreachTsects = [TsectIx for TsectIx in PossBreachTsects if 0 < TsectIx < ShoreX.size-1]
         
         # Decide whether erosion causes breach
         if Breach:
@@ -627,7 +629,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                     PossBreachTsects.append(TsectIx)
             else: # TsectIx == X0Ix
                 PossBreachTsects.append(TsectIx)
-        PossBreachTsects = np.array(PossBreachTsects)
+        # (no breach at the ends of the domain as the outlet has to stay inside it)
+        PossBreachTsects = np.array([TsectIx for TsectIx in PossBreachTsects if 0 < TsectIx < ShoreX.size-1])
         
         if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
-- 
2.43.0


From 6862997d3c586b0046c7ce7238754c4771299214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:37 +0000
Subject: [PATCH 20/30] fix: keep a barrier seaward of the channel where a
 relic channel breaches

---
 hapuamod/mor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index cf986fe..4eef8c7 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -660,6 +660,9 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Outlet truncation breach
             logging.info('Breach on pre-existing outlet channel at X = %.1fm' % ShoreX[BreachIx])
             OutletEndX[1] = ShoreX[BreachIx]
+            if ShoreY[BreachIx,1] >= ShoreY[BreachIx,0]:
+                # keep some barrier between the channel and the sea
+                ShoreY[BreachIx,0] = ShoreY[BreachIx,1] + 0.001
             # TODO: close sediment balance by putting breach eroded sed onto shore
         else:
             # Lagoon breach (i.e. new outlet channel)
-- 
2.43.0


From f099c0520229eee29c211fc081ce579c0fd68033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:56 +0000
Subject: [PATCH 21/30] fix: hold an outlet leaving the right edge of the
 domain at the right edge

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 4eef8c7..0eaad9f 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -220,7 +220,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         OutletEndX[1] = ShoreX[1]
     if OutletEndX[1] > ShoreX[-2]:
         logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
-        OutletEndX[1] = ShoreX[1]
+        OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
     CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-- 
2.43.0


From 2fe1920c8e2d0b9c8a574d442563b1234d50c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:49 +0000
Subject: [PATCH 22/30] fix: truncate a leftward outlet at the first transect
 that has met the sea, not the last

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 0eaad9f..2d53b21 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -415,7 +415,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                        ShoreX <= OutletEndX[1]))[0]
             else:
                 # Outlet angles from R to L
-                OutletEndX[1] = ShoreX[TruncationIx[-1]] + Dx/2 
+                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx/2 
                 OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                  ShoreX <= OutletEndX[0]))[0])
     
-- 
2.43.0


From 7507ed567d52bf7f9bdd9bc27bc2158678edccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:49 +0000
Subject: [PATCH 23/30] fix: outlet truncated by lagoon and sea at neighbouring
 transects keeps one transect

---
 hapuamod/mor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 2d53b21..2086dd3 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -372,6 +372,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                                  ShoreX <= OutletEndX[0]))[0])
             assert OutletChanIx.size > 0, 'zero length outlet channel after lagoonward truncation'
             
+            # The new upstream most transect can't be truncated by the sea either
+            if ShoreY[OutletChanIx[0],1] >= ShoreY[OutletChanIx[0],0]:
+                ShoreY[OutletChanIx[0],0] = ShoreY[OutletChanIx[0],1] + 0.001
+            
             # Check if truncation is a collision between outlet channel and cliff
             # i.e. where there is no lagoon. If so then extend lagoon.
             if ShoreY[TruncationIx[0], 2] <= ShoreY[TruncationIx[0], 4]:    
-- 
2.43.0


From f1903286da89262d3ab70d13ea1657ddac191e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:49 +0000
Subject: [PATCH 24/30] fix: move the start of the outlet past every transect
 where it has merged with the lagoon

---
 hapuamod/mor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 2086dd3..3d11ae0 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -356,10 +356,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Move the ustream end of the outlet channel
             if OutletEndX[0] < OutletEndX[1]:
                 # Outlet angles from L to R
-                OutletEndX[0] = ShoreX[TruncationIx[0] + 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] + 1]
             else:
                 # Outlet angles from R to L
-                OutletEndX[0] = ShoreX[TruncationIx[0] - 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] - 1]
             
             # Recompute OutletChanIx
             if OutletEndX[0] < OutletEndX[1]:
@@ -378,19 +378,19 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             
             # Check if truncation is a collision between outlet channel and cliff
             # i.e. where there is no lagoon. If so then extend lagoon.
-            if ShoreY[TruncationIx[0], 2] <= ShoreY[TruncationIx[0], 4]:    
-                if ShoreX[TruncationIx[0]] > 0:
+            if ShoreY[TruncationIx[-1], 2] <= ShoreY[TruncationIx[-1], 4]:    
+                if ShoreX[TruncationIx[-1]] > 0:
                     # Extend right end of lagoon
                     logging.info('Extending R end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][-1]
-                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[0] + 1)
+                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[-1] + 1)
                 else:
                     # Extend left end of lagoon
                     logging.info('Extending L end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][0]
-                    LagExtension = np.arange(TruncationIx[0], CurLagEndIx)
+                    LagExtension = np.arange(TruncationIx[-1], CurLagEndIx)
             else:
                 Extend = False
             
-- 
2.43.0


From 4a3e0101c38ca57888afa71f3c684238d5efdc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 25/30] fix: write the bedload at the outlet end to the output
 file

---
 hapuamod/out.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 94d1cad..b46b5a5 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -403,6 +403,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
     NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
     NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
+    NcFile.variables['outlet_end_bedload'][TimeIx] = np.ravel(OutletEndBedload)[0]
     NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
     NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-- 
2.43.0


From 58368dfe94dd2a6b96e74f5a4e824d630d8d6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 26/30] fix: wave direction read back from an output file is
 the one written

---
 hapuamod/out.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index b46b5a5..9eff418 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -474,7 +474,6 @@ def readTimestep(NcFile, TimeIx):
     Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
     
     WavePower=None
-    EDir_h=0
     LST = NcFile.variables['lst'][TimeIx,:] / 3600
     CST = NcFile.variables['cst'][TimeIx,:] / 3600
     
-- 
2.43.0


From c3204befc7856f540e8066ae4f54b9e72014590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 27/30] fix: find the output record closest to a time as a
 single index

---
 hapuamod/out.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 9eff418..506e811 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -506,11 +506,12 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
         TimeIx = closestTimeIx(NcFile, DatetimeOfInterest)
     """
     NetCdfTimes = NcFile.variables['time'][:]
-    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units))
+    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units,
+                                                  only_use_cftime_datetimes=False))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
-    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
-    ClosestTime = OutputTimes[TimeIx].to_pydatetime()[0]
+    TimeIx = int(np.argmin(TimeDiffs))
+    ClosestTime = OutputTimes[TimeIx].to_pydatetime()
     
     return (TimeIx, ClosestTime)
 
-- 
2.43.0


From d3dd16a266cad642594fdf5cfbf5965e3230ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 28/30] fix: keep fractions of a second and whole days of the
 timestep in the timeseries output

---
 hapuamod/out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 506e811..1efc4b9 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -648,6 +648,6 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sed_inflow'][TimeIx] = SedInflow
     NcFile.variables['outlet_end_x'][TimeIx,:] = OutletEndX
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-    NcFile.variables['mordt'][TimeIx] = MorDt.seconds
+    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
     
     NcFile.close()
\ No newline at end of file
-- 
2.43.0


From d58d6a0c2453857beafd7e3464ec48b8e4c3012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 29/30] fix: run ends normally at its end time

---
 hapuamod/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d117dd9..ef58297 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -104,7 +104,7 @@ def main(ModelConfigFile, Overwrite=False):
     PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
     
     MorDt = TimePars['MorDtMin'] # Initial morphological timestep
-    while MorTime <= TimePars['EndTime']:
+    while MorTime < TimePars['EndTime']:
         
         # Re-assemble the combined river channel incase it has evolved
         (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
@@ -118,8 +118,12 @@ def main(ModelConfigFile, Overwrite=False):
                                 NumericalPars['Dx'], PhysicalPars)
                 
         # Run the river model for all the timesteps upto the next morphology step
-        HydTimes = pd.date_range(MorTime, MorTime + MorDt, 
+        # (the boundary conditions are only known up to the end time)
+        HydTimes = pd.date_range(MorTime, min(MorTime + MorDt, TimePars['EndTime']), 
                                  freq=TimePars['HydDt'], closed='right')
+        if HydTimes.size == 0:
+            # less than one hydraulic timestep left
+            HydTimes = pd.DatetimeIndex([min(MorTime + MorDt, TimePars['EndTime'])])
         
         RivFlow = interpolate_at(FlowTs, HydTimes).values
         SeaLevel = interpolate_at(SeaLevelTs, HydTimes).values
-- 
2.43.0


From ec9d33796d7285cdaf927e5986e932a22ea8a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:10 +0000
Subject: [PATCH 30/30] fix: outputs missed during a long timestep are not made
 up for at every following step

---
 hapuamod/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index ef58297..4b4b129 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -202,14 +202,14 @@ def main(ModelConfigFile, Overwrite=False):
                              RiverElev, ChanDep[ChanFlag==0], ChanVel[ChanFlag==0], Bedload[ChanFlag[:-1]==0],
                              OutletEndX, OutletEndElev, OutletEndWidth, 
                              OutletEndDep, OutletEndVel, OutletEndBedload, Closed)
-            OutTime += OutputOpts['OutInt']
+            OutTime = nextDue(OutTime, OutputOpts['OutInt'], MorTime)
         
         if MorTime >= TsOutTime:
             out.writeTsOut(OutputOpts['TsOutFile'], MorTime, 
                            SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, 
                            np.nanmean(LagoonWL), ChanDep[-1]*ChanVel[-1]*ChanWidth[-1], 
                            Bedload[0], OutletEndX, Closed, MorDt)
-            TsOutTime += OutputOpts['TsOutInt']
+            TsOutTime = nextDue(TsOutTime, OutputOpts['TsOutInt'], MorTime)
         
         # updates to user
         if MorTime >= LogTime:
@@ -238,6 +238,13 @@ def main(ModelConfigFile, Overwrite=False):
         if Breach:
             Closed = False
     
+def nextDue(DueTime, Interval, CurrentTime):
+    """ First time an output is due after CurrentTime (every timestep if Interval is zero)
+    """
+    if Interval > pd.Timedelta(0):
+        DueTime += Interval * ((CurrentTime - DueTime) // Interval + 1)
+    return DueTime
+
 def interpolate_at(Df, New_idxs):
     """ Linearly interpolate dataframe for specified index values
     interpolate_at is used to Linearly interpolate wave, river flow and sea 
-- 
2.43.0

