From 0b03e984b950f841f08255a3993865148541933c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 01/40] fix: pierce points and ray paths could not be
 calculated

TauP_Pierce and TauP_Path called the TauP_Time constructor with arguments
it does not take, and the interface passed them an attribute which does
not exist, so every call raised. Arrival.getPierce and getPath compared
instead of computing.
---
 taupy/Arrival.py     |  4 ++--
 taupy/TauP_Path.py   | 13 ++++---------
 taupy/TauP_Pierce.py | 14 ++++----------
 taupy/tau.py         | 10 ++++------
 4 files changed, 14 insertions(+), 27 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..38407ae 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,7 +53,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.phase.calcPierceFromArrival(self)
         return self.pierce
 
     def getPath(self):
@@ -61,7 +61,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.phase.calcPathFromArrival(self)
         return self.path
 
     def getModuloDistDeg(self):
diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..f582b97 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,19 +15,14 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
-        phaseList = phaseList if phaseList is not None else []
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        TauP_Pierce.__init__(self, taupy_model, phaseList, depth, degrees,
+                             coordinate_list)
         self.maxPathTime = 1e300
         self.maxPathInc = 1
-        self.phaseList = phaseList
-        self.modelName = modelName
         # This type conversion is important (somehow).
         self.depth = float(depth)
-        self.degrees = degrees
 
     def calculate(self, degrees):
         """
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..a5714e5 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,21 +14,15 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees,
+                           coordinate_list)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
-        self.phaseList = phaseList
-        self.modelName = modelName
-        self.depth = depth
-        self.degrees = degrees
 
     def depthCorrect(self, depth):
         """
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..1731b59 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From da61306e22deae6c628e054f66c1d7181c4c4b6c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 02/40] fix: splitting a slowness layer corrupted the slowness
 model

Moving a sample changed the model being split in place, and for P waves
replaced the S layers with the P layers. Adding the sample to the other
wave type replaced the wrong layer once one had been added above, and
numbers of critical layers were updated for the wrong wave type.
---
 taupy/SlownessModel.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..4f23a34 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1291,39 +1291,36 @@ class SlownessModel(object):
         elif abs(sLayer.topDepth - depth) < 0.000001:
             # Check for very thin layers, just move the layer to hit the
             # boundary.
-            outLayers = deepcopy(self.PLayers) \
-                if isPWave else deepcopy(self.SLayers)
+            outLayers = list(self.PLayers if isPWave else self.SLayers)
             outLayers[layerNum] = SlownessLayer(sLayer.topP, depth,
                                                 sLayer.botP, sLayer.botDepth)
             sLayer = self.getSlownessLayer(layerNum - 1, isPWave)
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         elif abs(depth - sLayer.botDepth) < 0.000001:
             # As above.
-            outLayers = deepcopy(self.PLayers) \
-                if isPWave else deepcopy(self.SLayers)
+            outLayers = list(self.PLayers if isPWave else self.SLayers)
             outLayers[layerNum] = SlownessLayer(sLayer.topP, sLayer.topDepth,
                                                 sLayer.botP, depth)
             sLayer = self.getSlownessLayer(layerNum + 1, isPWave)
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         else:
             # Must split properly.
             p = sLayer.evaluateAtBullen(depth, self.radiusOfEarth)
             topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p, depth)
             botLayer = SlownessLayer(p, depth, sLayer.botP, sLayer.botDepth)
-            outLayers = deepcopy(self.PLayers) \
-                if isPWave else deepcopy(self.SLayers)
+            outLayers = list(self.PLayers if isPWave else self.SLayers)
             # or del outLayers[layerNum] - which is faster?
             outLayers.pop(layerNum)
             outLayers.insert(layerNum, botLayer)
@@ -1362,7 +1359,7 @@ class SlownessModel(object):
 
     def fixOtherLayers(self, otherLayers, p, changedLayer, newTopLayer,
                        newBotLayer, criticalDepths, isPWave):
-        out = deepcopy(otherLayers)
+        out = list(otherLayers)
         # Make sure to keep sampling consistent. If in a fluid, both wave
         # types will share a single slowness layer.
         try:
@@ -1370,12 +1367,15 @@ class SlownessModel(object):
             del out[otherIndex]
             out.insert(otherIndex, newBotLayer)
             out.insert(otherIndex, newTopLayer)
+            self.fixCriticalDepths(criticalDepths, otherIndex, isPWave)
         except ValueError:
             # This will be raised by index if changedLayer can't be found,
             # but must not break program flow. I.e. that's ok, no error
             # should be raised, the try clause can be seen like an if.
             pass
-        for otherLayerNum, sLayer in enumerate(out[:]):
+        otherLayerNum = 0
+        while otherLayerNum < len(out):
+            sLayer = out[otherLayerNum]
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 # Found a slowness layer with the other wave type that
                 # contains the new slowness sample.
@@ -1388,9 +1388,8 @@ class SlownessModel(object):
                 out.insert(otherLayerNum, botLayer)
                 out.insert(otherLayerNum, topLayer)
                 # Fix critical layers since we have added a slowness layer.
-                self.fixCriticalDepths(criticalDepths, otherLayerNum,
-                                       not isPWave)
-                # Skip next layer as it was just added: achieved by slicing
-                # the list iterator.
-
+                self.fixCriticalDepths(criticalDepths, otherLayerNum, isPWave)
+                # Skip next layer as it was just added.
+                otherLayerNum += 1
+            otherLayerNum += 1
         return out
-- 
2.43.0


From 5b67a3a333fbe44ff0e134bfe48d85fe5d8e8185 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 03/40] fix: depth correction did not sample the slowness at
 the source

The search for the place of the new ray parameter assumed increasing order
while ray parameters are sorted in decreasing order, so it was never added,
and the code adding it to the branches had never run: it summed from the
surface instead of the top of the branch, used the S index for P, and
modified the branches of the original model. Depths without discontinuity
were collected in a list shared by all models, and the centre of the Earth
was reported to be in branch 1.
---
 taupy/TauBranch.py | 106 ++++++++-------------------------------------
 taupy/TauModel.py  |  69 +++++++++++++----------------
 2 files changed, 49 insertions(+), 126 deletions(-)

diff --git a/taupy/TauBranch.py b/taupy/TauBranch.py
index 16cc6ae..a27b49e 100644
--- a/taupy/TauBranch.py
+++ b/taupy/TauBranch.py
@@ -109,16 +109,7 @@ class TauBranch(object):
                 or botSLayer.botDepth != self.botDepth:
             raise TauModelError(
                 "TauBranch depths not compatible with slowness sampling.")
-        td = TimeDist(rayParam, 0, 0)
-        if topSLayer.botP >= rayParam and topSLayer.topP >= rayParam:
-            for i in range(botLayerNum + 1):
-                if sMod.getSlownessLayer(i, self.isPWave).botP < rayParam:
-                    # So we don't sum below the turning depth.
-                    break
-                else:
-                    temptd = sMod.layerTimeDist(rayParam, i, self.isPWave)
-                    td.distRadian += temptd.distRadian
-                    td.time += temptd.time
+        td = self.calcTimeDist(sMod, topLayerNum, botLayerNum, rayParam)
         self.shiftBranch(index)
         self.dist[index] = td.distRadian
         self.time[index] = td.time
@@ -194,85 +185,24 @@ class TauBranch(object):
         botBranch.maxRayParam = topBranch.minRayParam
         botBranch.minTurnRayParam = self.minTurnRayParam
         botBranch.minRayParam = self.minRayParam
-        PRayParam = -1
-        SRayParam = -1
-        arrayLength = len(self.dist)
-        if indexP != -1:
-            arrayLength += 1
-            PRayParam = rayParams[indexP]
-            timeDistP = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum,
-                                               PRayParam)
-        if indexS != -1 and indexS != indexP:
-            arrayLength += 1
-            SRayParam = rayParams[indexS]
-            timeDistS = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum,
-                                               SRayParam)
-        else:
-            # In case indexS==P then only need one.
-            indexS = -1
-        # This looks silly, but makes filling these later on easier
-        botBranch.dist = [0 for i in range(arrayLength)]
-        botBranch.time = [0 for i in range(arrayLength)]
-        botBranch.tau = [0 for i in range(arrayLength)]
-        if indexP == -1:
-            # Then both indices are -1 so no new ray parameters are added.
-            botBranch.dist = [a-b for a, b in zip(self.dist, topBranch.dist)]
-            botBranch.time = [a-b for a, b in zip(self.time, topBranch.time)]
-            botBranch.tau = [a-b for a, b in zip(self.tau, topBranch.tau)]
-        else:
-            if indexS == -1:
-                # Only indexP != -1.
-                # Slice to have the 'iteration' go only until indexP (zip
-                # ends with the shortest iterator).
-                botBranch.dist = [a-b for a, b in zip(self.dist[:indexP],
-                                                      topBranch.dist)]
-                botBranch.time = [a-b for a, b in zip(self.time[:indexP],
-                                                      topBranch.time)]
-                botBranch.tau = [a-b for a, b in zip(self.tau[:indexP],
-                                                     topBranch.tau)]
-                botBranch.dist.append(timeDistP.distRadian)
-                botBranch.time.append(timeDistP.time)
-                botBranch.tau.append(
-                    timeDistP.time - PRayParam * timeDistP.distRadian)
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
+        # Rays that already existed are the difference of the whole branch and
+        # its top part, the new ones at indexP and indexS must be calculated.
+        old = zip(self.dist, self.time)
+        botBranch.dist = []
+        botBranch.time = []
+        botBranch.tau = []
+        for i, rayParam in enumerate(rayParams):
+            if i == indexP or i == indexS:
+                timeDist = botBranch.calcTimeDist(sMod, topLayerNum,
+                                                  botLayerNum, rayParam)
+                dist, time = timeDist.distRadian, timeDist.time
             else:
-                # Both indexP and S are != -1 so have two new samples
-                # Note the following does the same (in the beginning) as the
-                # previous clause.
-                # I'm on the fence about which is better.
-                for i in range(indexS):
-                    botBranch.dist[i] = self.dist[i] - topBranch.dist[i]
-                    botBranch.time[i] = self.time[i] - topBranch.time[i]
-                    botBranch.tau[i] = self.tau[i] - topBranch.tau[i]
-                botBranch.dist[indexS] = timeDistS.distRadian
-                botBranch.time[indexS] = timeDistS.time
-                botBranch.tau[indexS] = \
-                    timeDistS.time - SRayParam * timeDistS.distRadian
-                for i in range(indexS, indexP):
-                    botBranch.dist[i + 1] = \
-                        self.dist[i] - topBranch.dist[i + 1]
-                    botBranch.time[i + 1] = \
-                        self.time[i] - topBranch.time[i + 1]
-                    botBranch.tau[i + 1] = \
-                        self.tau[i] - topBranch.tau[i + 1]
-                # Put in at indexP+1 because we have already shifted by 1
-                # due to indexS.
-                botBranch.dist[indexP + 1] = timeDistP.distRadian
-                botBranch.time[indexP + 1] = timeDistP.time
-                botBranch.tau[indexP + 1] = \
-                    timeDistP.time - PRayParam * timeDistP.distRadian
-                for i in range(indexP, len(self.dist)):
-                    botBranch.dist[i + 2] = \
-                        self.dist[i] - topBranch.dist[i + 2]
-                    botBranch.time[i + 2] = \
-                        self.time[i] - topBranch.time[i + 2]
-                    botBranch.tau[i + 2] = \
-                        self.tau[i] - topBranch.tau[i + 2]
+                dist, time = next(old)
+                dist -= topBranch.dist[i]
+                time -= topBranch.time[i]
+            botBranch.dist.append(dist)
+            botBranch.time.append(time)
+            botBranch.tau.append(time - rayParam * dist)
         return botBranch
 
     def path(self, rayParam, downgoing, sMod):
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..3fd4e41 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -232,8 +232,7 @@ class TauModel(object):
         indexS = -1
         SWaveRayParam = -1
         outSMod = self.sMod
-        outRayParams = deepcopy(self.rayParams)  # necessary?
-        oldRayParams = self.rayParams
+        outRayParams = self.rayParams
         # Do S wave first since the S ray param is > P ray param.
         for isPWave in [False, True]:
             splitInfo = outSMod.splitLayer(depth, isPWave)
@@ -242,38 +241,47 @@ class TauModel(object):
                 # Split the slowness layers containing depth into two layers
                 # each.
                 newRayParam = splitInfo.rayParam
-                # Insert the new ray parameters into the rayParams array.
-                for index, trp, brp in zip(count(), oldRayParams[:-1],
-                                           oldRayParams[1:]):
-                    if trp < newRayParam < brp:
-                        outRayParams = oldRayParams[:index]
-                        outRayParams.append(newRayParam)
-                        outRayParams = outRayParams + oldRayParams[index:]
+                if outSMod.depthInHighSlowness(depth, newRayParam, isPWave):
+                    # No ray leaving horizontally from within a high slowness
+                    # zone can escape it, so this is not an extremal ray.
+                    continue
+                # Insert the new ray parameters into the rayParams array,
+                # which is sorted in decreasing order.
+                for index, trp, brp in zip(count(1), outRayParams[:-1],
+                                           outRayParams[1:]):
+                    if trp > newRayParam > brp:
+                        outRayParams = outRayParams[:index] + \
+                            [newRayParam] + outRayParams[index:]
                         if isPWave:
                             indexP = index
                             PWaveRayParam = newRayParam
+                            if indexS >= index:
+                                indexS += 1
                         else:
                             indexS = index
                             SWaveRayParam = newRayParam
                         break
+        # The new samples in order of increasing index (within outRayParams).
+        newSamples = sorted((index, rayParam) for index, rayParam in (
+            (indexP, PWaveRayParam), (indexS, SWaveRayParam)) if index != -1)
         # Now add a sample to each branch above the depth, split the branch
         # containing the depth, and add a sample to each deeper branch.
         branchToSplit = self.findBranch(depth)
         newTauBranches = [[TauBranch() for j in range(
             len(self.tauBranches[0]) + 1)] for i in range(2)]
-        for i in range(branchToSplit):
-            newTauBranches[0][i] = self.tauBranches[0][i]
-            newTauBranches[1][i] = self.tauBranches[1][i]
-            # Add the new ray parameter(s) from splitting the S and/or P
-            # wave slowness layer to both the P and S wave tau branches (if
-            # splitting occurred).
-            if indexS != -1:
-                newTauBranches[0][i].insert(SWaveRayParam, outSMod, indexS)
-                newTauBranches[1][i].insert(SWaveRayParam, outSMod, indexS)
-            if indexP != -1:
-                newTauBranches[0][i].insert(PWaveRayParam, outSMod, indexP)
-                newTauBranches[1][i].insert(PWaveRayParam, outSMod, indexP)
         for pOrS in range(2):
+            for i, branch in enumerate(self.tauBranches[pOrS]):
+                if i == branchToSplit:
+                    continue
+                # Never modify the branches of the original model.
+                branch = deepcopy(branch)
+                # Add the new ray parameter(s) from splitting the S and/or P
+                # wave slowness layer to both the P and S wave tau branches
+                # (if splitting occurred).
+                for index, rayParam in newSamples:
+                    branch.insert(rayParam, outSMod, index)
+                newTauBranches[pOrS][
+                    i if i < branchToSplit else i + 1] = branch
             newTauBranches[pOrS][branchToSplit] = TauBranch(
                 self.tauBranches[pOrS][branchToSplit].topDepth, depth,
                 pOrS == 0)
@@ -286,21 +294,6 @@ class TauModel(object):
                     indexP, indexS, outSMod,
                     newTauBranches[pOrS][branchToSplit].minRayParam,
                     outRayParams)
-        for i in range(branchToSplit + 1, len(self.tauBranches[0])):
-            for pOrS in range(2):
-                newTauBranches[pOrS][i + 1] = self.tauBranches[pOrS][i]
-            if indexS != -1:
-                # Add the new ray parameter from splitting the S wave
-                # slownes layer to both the P and S wave tau branches.
-                for pOrS in range(2):
-                    newTauBranches[pOrS][i + 1].insert(SWaveRayParam, outSMod,
-                                                       indexS)
-            if indexP != -1:
-                # Add the new ray parameter from splitting the P wave
-                # slownes layer to both the P and S wave tau branches.
-                for pOrS in range(2):
-                    newTauBranches[pOrS][i + 1].insert(PWaveRayParam, outSMod,
-                                                       indexS)
         # We have split a branch so possibly sourceBranch, mohoBranch,
         # cmbBranch and iocbBranch are off by 1.
         outSourceBranch = self.sourceBranch
@@ -325,7 +318,7 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
@@ -340,7 +333,7 @@ class TauModel(object):
                 return i
         # Check to see if depth is centre of the Earth.
         if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
-            return len(self.tauBranches) - 1
+            return len(self.tauBranches[0]) - 1
         else:
             raise TauModelError("No TauBranch contains this depth.")
 
-- 
2.43.0


From 9370eefede126c8239f065059199f23659ba4f7f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 04/40] fix: impossible and horizontal first legs

Phases whose downgoing (upgoing) leg would end above (below) its start, for
instance P for a source in the core, jumped there. For sources on a
discontinuity downgoing rays were allowed with ray parameters which can not
enter the lower side, raising a math domain error for the takeoff angle.
---
 taupy/SeismicPhase.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be6d4d3..bd000d7 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -571,6 +571,16 @@ class SeismicPhase(object):
         else:
             raise TauModelError("Illegal endAction: {}".format(endAction))
         if isDownGoing:
+            if startBranch > endBranch + 1:
+                # Can't be downgoing as the ray already is below the end of
+                # the leg, possibly due to the source depth.
+                self.maxRayParam = -1
+            elif startBranch <= endBranch:
+                # The ray must be able to enter the first branch, the source
+                # may be on a discontinuity.
+                self.maxRayParam = min(
+                    self.maxRayParam,
+                    tMod.getTauBranch(startBranch, isPWave).maxRayParam)
             # Must be downgoing, so increment i.
             for i in range(startBranch, endBranch + 1):
                 self.branchSeq.append(i)
@@ -578,6 +588,10 @@ class SeismicPhase(object):
                 self.waveType.append(isPWave)
                 self.legAction.append(endAction)
         else:
+            if startBranch < endBranch - 1:
+                # Can't be upgoing as the ray already is above the end of
+                # the leg, possibly due to the source depth.
+                self.maxRayParam = -1
             # Upgoing, so decrement i.
             for i in range(startBranch, endBranch - 1, -1):
                 self.branchSeq.append(i)
@@ -1045,11 +1059,11 @@ class SeismicPhase(object):
                 # Fake negative velocity so angle is negative in case of
                 # upgoing ray.
                 takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
-            takeoffAngle = (180 / math.pi) * math.asin(
+            takeoffAngle = rayAngle(
                 takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth -
                                                      self.sourceDepth))
             lastLeg = self.legs[-2][0]  # very last item is "END"
-            incidentAngle = (180 / math.pi) * math.asin(
+            incidentAngle = rayAngle(
                 vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
                 self.tMod.radiusOfEarth)
         return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum,
@@ -1061,6 +1075,14 @@ class SeismicPhase(object):
         raise NotImplementedError("baaa")
 
 
+def rayAngle(sine):
+    """
+    Angle in degrees between a ray and the vertical. The sine of a horizontal
+    ray may exceed one by numerical chatter.
+    """
+    return (180 / math.pi) * math.asin(max(-1.0, min(1.0, sine)))
+
+
 def closestBranchToDepth(tMod, depthString):
     """
     Finds the closest discontinuity to the given depth that can hae
-- 
2.43.0


From aa84c3358b208d93add7cbc2379bae7fd49335f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 05/40] fix: travel time of Pn and Sn was independent of the
 Moho slowness

The time along the Moho is the distance times the ray parameter, the latter
was missing, so that refracting by 20 degrees took 0.35 s.
---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index bd000d7..23a3b89 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -695,7 +695,8 @@ class SeismicPhase(object):
                                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
-            self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxRefraction * math.pi / 180 * self.minRayParam
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
-- 
2.43.0


From 976297a88ef8b9c9af239b164a94020757dea84b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 06/40] fix: surface wave phases raised for every query

Their ray parameters were never set, which failed before the special case
was reached, and a leg without branch made the pierce points fail. A name
whose velocity is no positive number is now an invalid phase name.
---
 taupy/SeismicPhase.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 23a3b89..6641db5 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -602,15 +602,6 @@ class SeismicPhase(object):
 
     def sumBranches(self, tMod):
         """Sum the appropriate branches for this phase."""
-        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
-            # Phase has no arrivals, possibly due to source depth.
-            self.rayParams = []
-            self.minRayParam = -1
-            self.maxRayParam = -1
-            self.dist = []
-            self.time = []
-            self.maxDistance = -1
-            return
         # Special case for surface waves.
         if self.name.endswith("kmps"):
             self.dist = [0, 0]
@@ -621,9 +612,18 @@ class SeismicPhase(object):
             self.time[1] = \
                 2 * math.pi * tMod.radiusOfEarth / float(self.name[:-4])
             self.rayParams[1] = self.rayParams[0]
+            self.minRayParam = self.maxRayParam = self.rayParams[0]
             self.minDistance = 0
             self.maxDistance = 2 * math.pi
-            self.downGoing.append(True)
+            return
+        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
+            # Phase has no arrivals, possibly due to source depth.
+            self.rayParams = []
+            self.minRayParam = -1
+            self.maxRayParam = -1
+            self.dist = []
+            self.time = []
+            self.maxDistance = -1
             return
         # Find the ray parameter index that corresponds to the minRayParam
         # and maxRayParam.
@@ -1122,6 +1122,13 @@ def legPuller(name):
     legs = []
     # Special case for surface wave velocity.
     if name.endswith("kmps"):
+        try:
+            velocity = float(name[:-4])
+        except ValueError:
+            velocity = -1
+        if not 0 < velocity < float("inf"):
+            raise TauModelError("Invalid surface wave velocity in {name}."
+                                .format(**locals()))
         legs.append(name)
     else:
         while offset < len(name):
-- 
2.43.0


From f9f6c8dc9598d5a391172cd13cdb80eadbcec484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 07/40] fix: phases with reflections or conversions at depths
 were refused

Names with ^, v or a depth, e.g. P^410P, PvmS or P410s, could not be
split into legs as every character passed for a P or S, and only the first
character of the depth was used.
---
 taupy/SeismicPhase.py | 58 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 6641db5..9cf381e 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -126,7 +126,7 @@ class SeismicPhase(object):
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
-                disconBranch = closestBranchToDepth(tMod, currLeg[1])
+                disconBranch = closestBranchToDepth(tMod, currLeg[1:])
                 legDepth = tMod.tauBranches[0][disconBranch].topDepth
                 puristName += currLeg[0]
                 puristName += str(legDepth)
@@ -251,7 +251,7 @@ class SeismicPhase(object):
                         "p and s must always be upgoing and cannot come "
                         "immediately before a top-sided reflection.")
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch >= disconBranch:
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -290,7 +290,7 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
@@ -301,7 +301,7 @@ class SeismicPhase(object):
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -315,8 +315,7 @@ class SeismicPhase(object):
                                          isPWave, self.REFLECTTOP)
                     elif ((prevLeg.startswith("v") and
                                    disconBranch < closestBranchToDepth(tMod,
-                                                                       prevLeg[
-                                                                           1])
+                                                                       prevLeg[1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -488,8 +487,8 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
             elif (any(currLeg == p for p in ("m", "c", "i"))
-                  or currLeg.startswith == "^"
-                  or currLeg.startswith == "v" or isLegDepth):
+                  or currLeg.startswith("^")
+                  or currLeg.startswith("v") or isLegDepth):
                 pass
             else:
                 raise TauModelError(
@@ -1138,7 +1137,7 @@ def legPuller(name):
                                         "m", "c")):
                 legs.append(nchar)
                 offset += 1
-            elif nchar == "P" or "S":
+            elif nchar == "P" or nchar == "S":
                 # Now it gets complicated, first see if the next char is
                 # part of a different leg or if it's the end.
                 if (offset + 1 == len(name) or
@@ -1166,30 +1165,35 @@ def legPuller(name):
             elif nchar == "^" or nchar == "v":
                 # Top side or bottom side reflections, check for standard
                 # boundaries and then check for numerical ones.
-                if any(name[offset + 1] == c for c in ("m", "c", "i")):
-                    legs.append(name[offset:offset + 2])
-                    offset += 2
-                elif name[offset + 1].isdigit() or name[offset + 1] == ".":
-                    numString = name[offset]
-                    offset += 1
-                    while name[offset + 1].isdigit() or name[
-                                offset + 1] == ".":
-                        numString += name[offset]
-                        offset += 1
-                    legs.append(numString)
+                if name[offset + 1:offset + 2] in ("m", "c", "i"):
+                    numString = name[offset + 1]
                 else:
-                    raise TauModelError("Invalid phase name {nchar} in {name}."
-                                        .format(**locals()))
+                    numString = leadingNumber(name, offset + 1)
+                legs.append(nchar + numString)
+                offset += 1 + len(numString)
             elif nchar.isdigit() or nchar == ".":
-                numString = name[offset]
-                offset += 1
-                while name[offset + 1].isdigit() or name[offset + 1] == ".":
-                    numString += name[offset]
-                    offset += 1
+                numString = leadingNumber(name, offset)
                 legs.append(numString)
+                offset += len(numString)
             else:
                 raise TauModelError(
                     "Invalid phase name {nchar} in {name}.".format(**locals()))
     legs.append("END")
     # phaseValidate(legs)
     return legs
+
+
+def leadingNumber(name, offset):
+    """
+    The part of the phase name from offset on that is a number, i.e. the
+    depth of a reflection or conversion.
+    """
+    end = offset
+    while end < len(name) and name[end] in "0123456789.":
+        end += 1
+    try:
+        float(name[offset:end])
+    except ValueError:
+        raise TauModelError("Invalid phase name {}: no valid depth at "
+                            "position {}.".format(name, offset))
+    return name[offset:end]
-- 
2.43.0


From 4618e3af1e00141022ea9c9c0277c2cb4114e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 08/40] fix: impossible phase names were timed as if they were
 paths

Names such as Pc, PKI, PcJP or Pdiff410 do not describe a path that ends
at the surface, but arrivals were calculated for the part that made sense.
---
 taupy/SeismicPhase.py | 57 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 9cf381e..d165ae8 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -111,6 +111,7 @@ class SeismicPhase(object):
         # Name with depths corrected to be actual discontinuities in the model.
         self.puristName = self.createPuristName(tMod)
         self.parseName(tMod)
+        self.validatePath(tMod)
         self.sumBranches(tMod)
 
     def createPuristName(self, tMod):
@@ -314,8 +315,8 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
                     elif ((prevLeg.startswith("v") and
-                                   disconBranch < closestBranchToDepth(tMod,
-                                                                       prevLeg[1:])
+                                   disconBranch < closestBranchToDepth(
+                                       tMod, prevLeg[1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -495,6 +496,23 @@ class SeismicPhase(object):
                     "Phase not recognized: {} followed by {}".format(currLeg,
                                                                      nextLeg))
 
+    def validatePath(self, tMod):
+        """
+        Checks that the branches are a continuous path that ends at the
+        surface, the legs of the name do not describe a ray otherwise.
+        """
+        if self.name.endswith("kmps") or self.maxRayParam < 0:
+            # No branches or no arrivals anyway, possibly due to the source
+            # depth.
+            return
+        depths = [(branch, branch + 1) if down else (branch + 1, branch)
+                  for branch, down in zip(self.branchSeq, self.downGoing)]
+        if not depths or depths[-1][1] != 0 or any(
+                prev[1] != curr[0] for prev, curr in zip(depths, depths[1:])):
+            raise TauModelError("Phase not recognised: {} is not a "
+                                "continuous path to the surface.".format(
+                                    self.name))
+
     def phaseConversion(self, tMod, fromBranch, endAction, isPtoS):
         """
         Changes maxRayParam and minRayParam whenever there is a phase
@@ -1179,10 +1197,43 @@ def legPuller(name):
                 raise TauModelError(
                     "Invalid phase name {nchar} in {name}.".format(**locals()))
     legs.append("END")
-    # phaseValidate(legs)
+    phaseValidate(name, legs)
     return legs
 
 
+def phaseValidate(name, legs):
+    """
+    Checks that each leg of a phase can follow the previous one, for
+    instance that a reflection is followed by a wave and that waves within
+    the core are not mixed up with those in the crust and mantle.
+    """
+    def isMantleWave(leg):
+        return leg[0] in ("P", "S", "p", "s")
+
+    for prevLeg, currLeg in zip(legs[:-1], legs[1:]):
+        if prevLeg in ("I", "J"):
+            valid = currLeg in ("I", "J", "K")
+        elif prevLeg == "i":
+            valid = currLeg == "K"
+        elif prevLeg in ("K", "k"):
+            valid = currLeg in ("K", "I", "J", "i", "P", "S")
+        elif prevLeg in ("P", "S"):
+            valid = currLeg not in ("k", "I", "J", "i")
+        elif prevLeg in ("p", "s"):
+            valid = currLeg not in ("K", "k", "I", "J", "i", "c")
+        elif isMantleWave(prevLeg):
+            # Pg, Pn, Pdiff and so on.
+            valid = isMantleWave(currLeg) or currLeg == "END"
+        elif prevLeg.endswith("kmps"):
+            valid = currLeg == "END"
+        else:
+            # Reflections and conversions.
+            valid = isMantleWave(currLeg)
+        if not valid:
+            raise TauModelError("Invalid phase name: {} cannot be followed "
+                                "by {} in {}.".format(prevLeg, currLeg, name))
+
+
 def leadingNumber(name, offset):
     """
     The part of the phase name from offset on that is a number, i.e. the
-- 
2.43.0


From 58f7a67f19541964e9e09829caac8495c8b11398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 09/40] fix: models with another radius than the Earth's had
 wrong slownesses

The slowness layers and the angles were calculated for a radius of 6371 km
whatever the radius of the model.
---
 taupy/SlownessModel.py | 30 ++++++++++++++++--------------
 taupy/TauModel.py      |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 4f23a34..593454f 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -184,8 +184,10 @@ class SlownessModel(object):
             currVLayer.topSVelocity, currVLayer.topSVelocity,
             currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp,
             currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
-        currSLayer = create_from_vlayer(currVLayer, self.SWAVE)
-        currPLayer = create_from_vlayer(currVLayer, self.PWAVE)
+        currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                        self.radiusOfEarth)
+        currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                        self.radiusOfEarth)
         # We know that the top is always a critical slowness so add 0
         self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
         # Check to see if starting in fluid zone.
@@ -221,8 +223,8 @@ class SlownessModel(object):
                 fluidZone.botDepth = prevVLayer.botDepth
                 self.fluidLayerDepths.append(fluidZone)
 
-            currPLayer = create_from_vlayer(currVLayer,
-                                            self.PWAVE)
+            currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                            self.radiusOfEarth)
             # If we are in a fluid zone ( S velocity = 0.0 ) or if we are below
             # the outer core and allowInnerCoreS=false then use the P velocity
             # structure to look for critical points.
@@ -230,8 +232,8 @@ class SlownessModel(object):
                     or (belowOuterCore and self.allowInnerCoreS is False):
                 currSLayer = currPLayer
             else:
-                currSLayer = create_from_vlayer(currVLayer,
-                                                self.SWAVE)
+                currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                                self.radiusOfEarth)
 
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
@@ -591,8 +593,8 @@ class SlownessModel(object):
                     layer.layer_number, prevVLayer.botDepth,
                     prevVLayer.botDepth, prevVLayer.botPVelocity,
                     origVLayer.topPVelocity, topSVel, botSVel)
-                currPLayer = create_from_vlayer(currVLayer,
-                                                self.PWAVE)
+                currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                                self.radiusOfEarth)
                 self.PLayers.append(currPLayer)
                 if (prevVLayer.botSVelocity == 0
                     and origVLayer.topSVelocity == 0) \
@@ -600,19 +602,19 @@ class SlownessModel(object):
                             and currVLayer.topDepth >= self.vMod.iocbDepth):
                     currSLayer = currPLayer
                 else:
-                    currSLayer = create_from_vlayer(currVLayer,
-                                                    self.SWAVE)
+                    currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                                    self.radiusOfEarth)
                 self.SLayers.append(currSLayer)
-            currPLayer = create_from_vlayer(origVLayer,
-                                            self.PWAVE)
+            currPLayer = create_from_vlayer(origVLayer, self.PWAVE,
+                                            self.radiusOfEarth)
             self.PLayers.append(currPLayer)
             if self.depthInFluid(origVLayer.topDepth) or (
                     self.allowInnerCoreS is False
                     and origVLayer.topDepth >= self.vMod.iocbDepth):
                 currSLayer = currPLayer
             else:
-                currSLayer = create_from_vlayer(origVLayer,
-                                                self.SWAVE)
+                currSLayer = create_from_vlayer(origVLayer, self.SWAVE,
+                                                self.radiusOfEarth)
             self.SLayers.append(currSLayer)
         # Make sure that all high slowness layers are sampled exactly
         # at their bottom
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 3fd4e41..6ea72e6 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -33,7 +33,7 @@ class TauModel(object):
 
     def __init__(self, sMod, spherical=True, debug=False):
         self.debug = debug
-        self.radiusOfEarth = 6371.0
+        self.radiusOfEarth = sMod.radiusOfEarth
         # True if this is a spherical slowness model. False if flat.
         self.spherical = spherical
         # Ray parameters used to construct the tau branches. This may only be
-- 
2.43.0


From 257b021a0780355c3bae685950e8eb2ca5de6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 10/40] fix: comment and empty lines in tvel files raised an
 IndexError

Comments using # are documented to be allowed.
---
 taupy/VelocityModel.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 4f205a4..1f922a6 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -332,11 +332,13 @@ class VelocityModel(object):
             # but less elegant)
             f.readline()
             f.readline()
+            # Comments and empty lines do not hold any samples.
+            samples = [line.partition('#')[0].split() for line in f]
+            samples = [columns for columns in samples if columns]
+            if not samples:
+                raise TauPException("No samples in velocity model file.")
             # Read the first line to provide initial top values.
-            line = f.readline()
-            line = line.partition('#')[0]
-            line = line.rstrip()  # or just .strip()?'
-            columns = line.split()
+            columns = samples[0]
             topDepth = float(columns[0])
             topPVel = float(columns[1])
             topSVel = float(columns[2])
@@ -350,11 +352,7 @@ class VelocityModel(object):
             topDensity = float(columns[3])
 
                 # Iterate over the rest of the file.
-            for line in f:
-                line = line.partition('#')[0]
-                # needs the other comment options
-                line = line.rstrip()  # or just .strip()?'
-                columns = line.split()
+            for columns in samples[1:]:
                 botDepth = float(columns[0])
                 botPVel = float(columns[1])
                 botSVel = float(columns[2])
-- 
2.43.0


From 5645043d8b79e276c4a238192a4e0ef896fa16cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 11/40] fix: math domain error for the distance between some
 coincident points

---
 taupy/TauP_Time.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..b71ccf3 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -345,9 +345,11 @@ def great_circle_dist(stn, event):
     lonA = stn[1]
     latB = event[0]
     lonB = event[1]
-    return rtod * math.acos(math.sin(latA * dtor) * math.sin(latB * dtor)
-                            + math.cos(latA * dtor) * math.cos(latB * dtor)
-                            * math.cos((lonB - lonA) * dtor))
+    cosDist = (math.sin(latA * dtor) * math.sin(latB * dtor)
+               + math.cos(latA * dtor) * math.cos(latB * dtor)
+               * math.cos((lonB - lonA) * dtor))
+    # May exceed one by numerical chatter for coincident or opposite points.
+    return rtod * math.acos(max(-1.0, min(1.0, cosDist)))
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From c68a9dc4d2e9f8e7725c1076b5bf99ce6aa3005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 12/40] fix: order of arrivals was different from one process
 to the next

---
 taupy/TauP_Time.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index b71ccf3..275d1d0 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -235,9 +235,13 @@ def parsePhaseList(phaseList):
     phaseNames = []
     for phaseName in phaseList:
         phaseNames += getPhaseNames(phaseName)
-    # Remove duplicates:
-    phaseNames = list(set(phaseNames))
-    return phaseNames
+    # Remove duplicates, but keep the order. It must not depend on the hashes
+    # of the names as arrivals at the same time are not sorted any further.
+    uniqueNames = []
+    for phaseName in phaseNames:
+        if phaseName not in uniqueNames:
+            uniqueNames.append(phaseName)
+    return uniqueNames
 
 
 def getPhaseNames(phaseName):
-- 
2.43.0


From 0b54d52887b556b84ef10acc5a46038cce54cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 13/40] fix: an empty phase list did not use all phases as
 documented

---
 taupy/tau.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/taupy/tau.py b/taupy/tau.py
index 1731b59..6903db2 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -93,7 +93,7 @@ class TauPyModel(object):
         # Accessing the arrivals not just by list indices but by phase name
         # might be useful, but also difficult: several arrivals can have the
         # same phase.
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = phase_list if phase_list else ["ttall"]
         tt = TauP_Time(self.model, phase_list, source_depth_in_km,
                        distance_in_degree, coordinate_list)
         tt.run(print_output)
@@ -104,7 +104,7 @@ class TauPyModel(object):
     def get_pierce_points(self, source_depth_in_km, distance_in_degree=None,
                           phase_list=None, coordinate_list=None,
                           print_output=False):
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = phase_list if phase_list else ["ttall"]
         pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
                          distance_in_degree, coordinate_list)
         pp.run(print_output)
@@ -115,7 +115,7 @@ class TauPyModel(object):
     def get_ray_paths(self, source_depth_in_km, distance_in_degree=None,
                       phase_list=None, coordinate_list=None,
                       print_output=False):
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = phase_list if phase_list else ["ttall"]
         rp = TauP_Path(self.model, phase_list, source_depth_in_km,
                        distance_in_degree, coordinate_list)
         rp.run(print_output)
-- 
2.43.0


From ce3556d16340d2b9e30326fe677992d26cccee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 14/40] fix: create_taup_model always raised, models were not
 saved without a directory

There is no TauP_Create.main, and an output filename without a directory
was taken for a failure to create the directory.
---
 taupy/TauP_Create.py | 5 +++--
 taupy/tau.py         | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..217ff21 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,9 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            output_dir = os.path.dirname(self.output_filename)
+            if output_dir and not os.path.exists(output_dir):
+                os.makedirs(output_dir)
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
diff --git a/taupy/tau.py b/taupy/tau.py
index 6903db2..e734a34 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -134,4 +134,9 @@ def create_taup_model(model_name, output_dir, input_dir):
         model_file_name = model_name
     else:
         model_file_name = model_name + ".tvel"
-    TauP_Create.main(model_file_name, output_dir, input_dir)
+    output_file_name = os.path.splitext(
+        os.path.basename(model_file_name))[0] + ".taup"
+    mod_create = TauP_Create(os.path.join(input_dir, model_file_name),
+                             os.path.join(output_dir, output_file_name))
+    mod_create.loadVMod()
+    mod_create.run()
-- 
2.43.0


From 9949e41b9bd219b894be4f0ad05a68d44537c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 15/40] fix: shadow zones of converted phases ignored the legs
 of the other wave type

---
 taupy/SeismicPhase.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index d165ae8..e76264c 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -760,14 +760,17 @@ class SeismicPhase(object):
                                                         timesBranches[1],
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
-                            if tb != 0 and taub.topDepth < hszi.topDepth:
+                            # Only the other wave type gets below the zone.
+                            if tb != 0 and (not isPwave or taub.topDepth
+                                            < hszi.topDepth):
                                 newdist[hszIndex] += tb * taub.dist[
                                     self.maxRayParamIndex + hszIndex -
                                     indexOffset]
                                 newtime[hszIndex] += tb * taub.time[
                                     self.maxRayParamIndex + hszIndex -
                                     indexOffset]
-                            if tbs != 0 and taubs.topDepth < hszi.topDepth:
+                            if tbs != 0 and (isPwave or taubs.topDepth
+                                             < hszi.topDepth):
                                 newdist[hszIndex] += tbs * taubs.dist[
                                     self.maxRayParamIndex + hszIndex -
                                     indexOffset]
-- 
2.43.0


From 4967cee562af98fd82230e87e564ef77b480f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 16/40] fix: conversions to a slower wave type were limited by
 the layer below's faster one

---
 taupy/SeismicPhase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index e76264c..0dc68cc 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -542,7 +542,7 @@ class SeismicPhase(object):
         elif endAction == self.TRANSDOWN:
             self.maxRayParam = min(
                 self.maxRayParam,
-                tMod.getTauBranch(fromBranch, isPtoS).minRayParam,
+                tMod.getTauBranch(fromBranch, isPtoS).minTurnRayParam,
                 tMod.getTauBranch(fromBranch + 1, not isPtoS).maxRayParam)
         else:
             raise TauModelError("Illegal endAction = {}".format(endAction))
@@ -580,11 +580,13 @@ class SeismicPhase(object):
                 self.maxRayParam,
                 tMod.getTauBranch(endBranch, isPWave).maxRayParam)
         elif endAction == self.TRANSDOWN:
+            # Whether the ray can enter the next branch depends on the wave
+            # type of the next leg, so that leg checks it.
             endOffset = 1
             isDownGoing = True
             self.maxRayParam = min(
                 self.maxRayParam,
-                tMod.getTauBranch(endBranch, isPWave).minRayParam)
+                tMod.getTauBranch(endBranch, isPWave).minTurnRayParam)
         else:
             raise TauModelError("Illegal endAction: {}".format(endAction))
         if isDownGoing:
-- 
2.43.0


From 4df47c70f89984f975f9f27b8f4a0ee01c6a8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 17/40] fix: arrivals after whole laps were listed twice at
 zero distance

---
 taupy/SeismicPhase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 0dc68cc..242ca89 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -807,7 +807,7 @@ class SeismicPhase(object):
         # we get the time for phases that accumulate more than 180 degrees
         # of distance, for instance PKKKKP might wrap all of the way around.
         # A special case exists at 180, so we skip the second case if
-        # tempDeg==180.
+        # tempDeg==180. At 0 it is the same as the first case of the next n.
         n = 0
         while n * 2 * math.pi + radDist <= self.maxDistance:
             # Look for arrivals that are radDist + 2nPi, i.e. rays that have
@@ -832,7 +832,7 @@ class SeismicPhase(object):
             # Look for arrivals that are 2(n+1)Pi-radDist, i.e. rays that
             # have done more than one half lap plus some number of whole laps.
             searchDist = (n + 1) * 2 * math.pi - radDist
-            if tempDeg != 180:
+            if tempDeg != 0 and tempDeg != 180:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
                             and rayNum + 1 != len(self.dist) - 1:
-- 
2.43.0


From baf8a52aa9fa15b62284cb20cf1758ad2ac84a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 18/40] fix: inner core S structure was used where no S waves
 are allowed in it

findCriticalPoints never noticed that it had left the outer core, as the
layer above the inner core boundary does not end below that boundary.
---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 593454f..65797cb 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -217,7 +217,7 @@ class SlownessModel(object):
                 fluidZone = DepthRange(topDepth=currVLayer.topDepth)
             # If already in fluid zone, check if exited (java line 909)
             if inFluidZone is True and currVLayer.topSVelocity != 0:
-                if prevVLayer.botDepth > self.vMod.iocbDepth:
+                if prevVLayer.botDepth >= self.vMod.iocbDepth:
                     belowOuterCore = True
                 inFluidZone = False
                 fluidZone.botDepth = prevVLayer.botDepth
-- 
2.43.0


From e9737f4a980c34298ca51d1f950cee3e1683005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 19/40] fix: pierce points of rays turning just above a high
 slowness zone were below it

---
 taupy/SeismicPhase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 242ca89..4b339f1 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -905,6 +905,10 @@ class SeismicPhase(object):
             # turn within a layer. We have to do this on a per branch basis
             # because of converted phases, e.g. SKS.
             tauBranch = self.tMod.getTauBranch(branchNum, isPWave)
+            if rayParamA > tauBranch.maxRayParam:
+                # Turns above the branch. The next sampled ray may get there
+                # as it crosses a high slowness zone.
+                continue
             if distRayParam > tauBranch.maxRayParam:
                 turnDepth = tauBranch.topDepth
             elif distRayParam <= tauBranch.minRayParam:
-- 
2.43.0


From 7014225e6611b6500666fc7952d7d4e6b4362569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 20/40] fix: paths of head waves ended before the receiver,
 diffracted parts were counted at other legs

---
 taupy/SeismicPhase.py | 93 +++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 62 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4b339f1..e419651 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -104,6 +104,9 @@ class SeismicPhase(object):
         # check to make sure the path is correct.
         # Used in addToBranch() and parseName().
         self.downGoing = []
+        # Indices within branchSeq of the downgoing branches after which the
+        # ray is diffracted along the CMB or refracted along the Moho.
+        self.headOrDiffractSeq = []
         # ArrayList of wave types corresponding to each leg of the phase.
         self.waveType = []
         # List containing strings for each leg.
@@ -397,6 +400,8 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch,
                                          tMod.cmbBranch - 1, isPWave,
                                          self.TURN)
+                        self.headOrDiffractSeq.append(
+                            len(self.branchSeq) - 1)
                         self.maxRayParam = self.minRayParam
                         if nextLeg == "END" or nextLeg.startswith("P") \
                                 or nextLeg.startswith("S"):
@@ -432,6 +437,8 @@ class SeismicPhase(object):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
+                            self.headOrDiffractSeq.append(
+                                len(self.branchSeq) - 1)
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TRANSUP)
@@ -893,13 +900,14 @@ class SeismicPhase(object):
         pierce = [TimeDist(distRayParam, 0, 0, self.tMod.sourceDepth)]
         branchDist = 0
         branchTime = 0
+        refractDist = self.refractDist(currArrival)
         # Loop from 0 but already done 0 [I just copy the comments, sorry!],
         # so the pierce point when the ray leaves branch i is stored in i + 1.
         # Use linear interpolation between rays that we know.
         assert len(self.branchSeq) == len(self.waveType) == len(self.downGoing)
-        for branchNum, isPWave, isDownGoing in zip(self.branchSeq,
-                                                   self.waveType,
-                                                   self.downGoing):
+        for i, branchNum, isPWave, isDownGoing in zip(count(), self.branchSeq,
+                                                      self.waveType,
+                                                      self.downGoing):
             # Save the turning depths for the ray parameter for both P and
             # S waves. This way we get the depth correct for any rays that
             # turn within a layer. We have to do this on a per branch basis
@@ -947,9 +955,13 @@ class SeismicPhase(object):
             if abs(prevBranchTime - branchTime) > 1e-10:
                 pierce.append(TimeDist(distRayParam, branchTime, branchDist,
                                        branchDepth))
-        if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
-            pierce = self.handleHeadOrDiffractedWave(currArrival, pierce)
-        elif "kmps" in self.name:
+            if i in self.headOrDiffractSeq:
+                # The part along the boundary.
+                branchDist += refractDist
+                branchTime += refractDist * distRayParam
+                pierce.append(TimeDist(distRayParam, branchTime, branchDist,
+                                       pierce[-1].depth))
+        if "kmps" in self.name:
             pierce.append(TimeDist(distRayParam, currArrival.time,
                                    currArrival.dist, 0))
         currArrival.pierce = pierce
@@ -988,28 +1000,13 @@ class SeismicPhase(object):
                         raise RuntimeError("Path is backtracking, "
                                            "this is impossible.")
             # Special case for head and diffracted waves:
-            if(branchNum == self.tMod.cmbBranch - 1
-               and i < len(self.branchSeq) - 1
-               and self.branchSeq[i + 1] == self.tMod.cmbBranch - 1
-               and ("Pdiff" in self.name or "Sdiff" in self.name)):
-                diffTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])
-                                   * currArrival.rayParam,
-                                   currArrival.dist - self.dist[0],
-                                   self.tMod.cmbDepth)]
-                pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch - 1
-                 and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch - 1
-                 and ("Pn" in self.name or "Sn" in self.name)):
-                # Can't have both Pn and Sn in a wave, so one of these is 0.
-                numFound = max(self.name.count("Pn"), self.name.count("Sn"))
-                headTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0]) / numFound
-                                   * currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])/numFound,
-                                   self.tMod.mohoDepth)]
-                pathList.append(headTD)
+            if i in self.headOrDiffractSeq:
+                refractDist = self.refractDist(currArrival)
+                refractDepth = self.tMod.cmbDepth if "diff" in self.name \
+                    else self.tMod.mohoDepth
+                pathList.append([TimeDist(currArrival.rayParam,
+                                          refractDist * currArrival.rayParam,
+                                          refractDist, refractDepth)])
         if "kmps" in self.name:
             # kmps phases have no branches, so need to end them at the arrival
             # distance.
@@ -1027,42 +1024,14 @@ class SeismicPhase(object):
                 currArrival.path.append(deepcopy(cumulative))
         return currArrival
 
-    def handleHeadOrDiffractedWave(self, currArrival, orig):
+    def refractDist(self, currArrival):
         """
-        Here we worry about the special case for head and diffracted
-        waves. It is assumed that a phase can be a diffracted wave or a
-        head wave, but not both. Nor can it be a head wave or diffracted
-        wave for both P and S.
+        Distance of each of the parts of the path along the CMB or the Moho,
+        for diffracted and head waves.
         """
-        for ps in ["Pn", "Sn", "Pdiff", "Sdiff"]:
-            if ps in self.name:
-                phaseSeg = ps
-                break
-        else:
-            raise TauModelError("No head/diff segment in" + str(self.name))
-        if phaseSeg in ["Pn", "Sn"]:
-            headDepth = self.tMod.mohoDepth
-        else:
-            headDepth = self.tMod.cmbDepth
-        numFound = self.name.count(phaseSeg)
-        refractDist = currArrival.dist - self.dist[0]
-        refractTime = refractDist * currArrival.rayParam
-        out = []
-        j = 0
-        for td in orig:
-            # This is a little weird as we are not checking where we are in
-            # the phase name, but simply if the depth matches. This likely
-            # works in most cases, but may not for head/diffracted waves that
-            # undergo a phase change, if that type of phase can even exist.
-            out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                td.distRadian + j * refractDist / numFound,
-                                td.depth))
-            if td.depth == headDepth:
-                j += 1
-                out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                    td.distRadian + j * refractDist / numFound,
-                                    td.depth))
-        return out
+        if not self.headOrDiffractSeq:
+            return 0
+        return (currArrival.dist - self.dist[0]) / len(self.headOrDiffractSeq)
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-- 
2.43.0


From 8952486ae15715c5221598faa03513df2458ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 21/40] fix: diffraction along a core-mantle boundary below a
 high slowness zone

---
 taupy/SeismicPhase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index e419651..db1474b 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -703,9 +703,10 @@ class SeismicPhase(object):
                     self.dist[i - self.maxRayParamIndex] += tbs * taubs.dist[i]
                     self.time[i - self.maxRayParamIndex] += tbs * taubs.time[i]
         if "Sdiff" in self.name or "Pdiff" in self.name:
-            if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10,
-                                             self.minRayParam,
-                                             self.name[0] == "P"):
+            isPdiff = "Pdiff" in self.name
+            cmbLayer = tMod.sMod.getSlownessLayer(
+                tMod.sMod.layerNumberAbove(tMod.cmbDepth, isPdiff), isPdiff)
+            if cmbLayer.botP > self.minRayParam:
                 # No diffraction if there is a high slowness zone at the CMB.
                 self.minRayParam = -1
                 self.maxRayParam = -1
-- 
2.43.0


From 12bc3b09aef52c5be65aeff9c62295a6ca52ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:57 +0000
Subject: [PATCH 22/40] fix: turning and underside points were compared with
 the source, not with the point before

---
 taupy/TauP_Pierce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index a5714e5..50afc40 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -111,6 +111,7 @@ class TauP_Pierce(TauP_Time):
                           currArrival.pierce[j].depth,
                           currArrival.pierce[j].time))
                     # Optional (only if used in calc?) coords output to follow.
+                prevDepth = capd
 
     def getCommentLine(self, currArrival):
         outName = currArrival.name
-- 
2.43.0


From 38e13d87ce653d286dd26086debb7900d805be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 23/40] fix: pierce points next to a boundary that no sampled
 ray just touches were left out

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index db1474b..92612ce 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -914,7 +914,8 @@ class SeismicPhase(object):
             # turn within a layer. We have to do this on a per branch basis
             # because of converted phases, e.g. SKS.
             tauBranch = self.tMod.getTauBranch(branchNum, isPWave)
-            if rayParamA > tauBranch.maxRayParam:
+            if (rayParamA > tauBranch.maxRayParam
+                    and rayParamB >= tauBranch.maxRayParam):
                 # Turns above the branch. The next sampled ray may get there
                 # as it crosses a high slowness zone.
                 continue
-- 
2.43.0


From f40b347cabd6a2815fcec2d791ce8bce10588161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 24/40] fix: an empty list of phases kept the phases of the
 calculation before

---
 taupy/TauP_Time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 275d1d0..1703c50 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -116,7 +116,7 @@ class TauP_Time(object):
                 except TauModelError:
                     print("Error with this phase, skipping it: " +
                           str(tempPhaseName))
-            self.phases = newPhases
+        self.phases = newPhases
 
     def calculate(self, degrees):
         """Calls the actual calculations of the arrival times."""
-- 
2.43.0


From 39236a0d5266f19abb0fc8fc1c4810987d9a97c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 25/40] fix: TauP_Pierce kept added depths after they were
 removed, and was unusable after a failure

---
 taupy/TauP_Pierce.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 50afc40..7d53a5e 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -31,36 +31,24 @@ class TauP_Pierce(TauP_Time):
         :return:
         """
         tModOrig = self.tMod
-        mustRecalc = False
+        addDepths = self.addDepth if self.addDepth is not None else []
         # First check if tModDepth is correct as it is. Check to make sure
-        # source depth is the same, and then check to make sure each addDepth
-        # is in the model.
-        if self.tModDepth.sourceDepth == depth:
-            if self.addDepth:
-                branchDepths = self.tModDepth.getBranchDepths()
-                for addDepth in self.addDepth:
-                    for branchDepth in branchDepths:
-                        if addDepth == branchDepth:
-                            # Found it, so break and go to the next addDepth.
-                            break
-                        # Didn't find the depth as a branch, so must
-                        # recalculate.
-                        mustRecalc = True
-                    if mustRecalc:
-                        break
-        else:
-            # The depth isn't event the same, so must recalculate
-            mustRecalc = True
-        if not mustRecalc:
+        # source depth is the same, and then check to make sure that exactly
+        # the addDepths are in the model.
+        if (self.tModDepth is not None
+                and self.tModDepth.sourceDepth == depth
+                and set(self.tModDepth.getBranchDepths()) ==
+                set(tModOrig.getBranchDepths() + [depth] + list(addDepths))):
             # Won't actually do anything much since tModDepth != None.
             TauP_Time.depthCorrect(self, depth)
         else:
             self.tModDepth = None
-            if self.addDepth is not None:
-                for addDepth in self.addDepth:
+            try:
+                for addDepth in addDepths:
                     self.tMod = self.tMod.splitBranch(addDepth)
-            TauP_Time.depthCorrect(self, depth)
-            self.tMod = tModOrig
+                TauP_Time.depthCorrect(self, depth)
+            finally:
+                self.tMod = tModOrig
 
     def calculate(self, degrees):
         """
-- 
2.43.0


From 9a48fa33c4e53c112f3b26cea04ed279404a1e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 26/40] fix: sampling with a small interpolation error raised
 an AttributeError

---
 taupy/SlownessModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 65797cb..5fb49f2 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -952,6 +952,9 @@ class SlownessModel(object):
                                              self.SWAVE)
                             currTD = prevPrevTD
                             isPrevOK = False
+                            # Not known if the step before was too large
+                            # as well.
+                            isCurrOK = currTD is not None
                             if j > 0:
                                 # Back up one step unless we are at the
                                 # beginning, then stay put.
-- 
2.43.0


From 46e4a2d9f9830b0bce55ca89e2ddc5a10d82efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 27/40] fix: a deep S shadow zone used the wrong sample after a
 shallow P shadow zone

---
 taupy/SeismicPhase.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 92612ce..7dab944 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -733,11 +733,11 @@ class SeismicPhase(object):
         # parameters that are associated with high slowness zones. If so,
         # then we will need to insert a "shadow zone" into our time and
         # distance arrays. It is represented by a repeated ray parameter.
+        shadowRayParams = []
         for isPwave in [True, False]:
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
-            indexOffset = 0
             for hszi in hsz:
                 if self.maxRayParam > hszi.rayParam > self.minRayParam:
                     # There is a high slowness zone within our ray parameter
@@ -759,6 +759,9 @@ class SeismicPhase(object):
                             break
                     if foundOverlap:
                         hszIndex = self.rayParams.index(hszi.rayParam)
+                        # Shadow zones of either wave type inserted so far.
+                        indexOffset = sum(p > hszi.rayParam
+                                          for p in shadowRayParams)
                         newdist = deepcopy(self.dist[:hszIndex])
                         newtime = deepcopy(self.time[:hszIndex])
                         newrayParams = deepcopy(self.rayParams[:hszIndex])
@@ -790,7 +793,7 @@ class SeismicPhase(object):
                         newdist += self.dist[hszIndex:]
                         newtime += self.time[hszIndex:]
                         newrayParams += self.rayParams[hszIndex:]
-                        indexOffset += 1
+                        shadowRayParams.append(hszi.rayParam)
                         self.dist = newdist
                         self.time = newtime
                         self.rayParams = newrayParams
-- 
2.43.0


From 5615a8202fe2f5f35ba8328623be2adf1e2d2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 28/40] fix: a high slowness zone beginning where another one
 ends was refused

---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 5fb49f2..03372db 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1185,7 +1185,7 @@ class SlownessModel(object):
                 if highSZoneDepth.topDepth >= highSZoneDepth.botDepth:
                     raise SlownessModelError(
                         "High Slowness zone has zero or negative thickness!")
-                if highSZoneDepth.topDepth <= prevDepth:
+                if highSZoneDepth.topDepth < prevDepth:
                     raise SlownessModelError(
                         "High Slowness zone overlaps previous zone.")
                 prevDepth = highSZoneDepth.botDepth
-- 
2.43.0


From 31771661e936b5b0b663cfeabd3008e3231e886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 29/40] fix: sampling never ended when two slownesses differ by
 rounding only

---
 taupy/SlownessModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 03372db..06783aa 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -939,7 +939,10 @@ class SlownessModel(object):
                                     np.array(splitTD.distRadian
                                              - prevTD.distRadian))
                                     + prevTD.time))
-                        if abs(diff) > self.maxInterpError:
+                        # A layer as thin as the precision can't be split.
+                        if (abs(diff) > self.maxInterpError and
+                                splitRayParam not in (sLayer.topP,
+                                                      sLayer.botP)):
                             self.addSlowness((prevSLayer.topP
                                               + prevSLayer. botP) / 2,
                                              self.PWAVE)
-- 
2.43.0


From 7ce2dc616513608076ccd97f3abaefcacdac207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 30/40] fix: slownesses and depths in thin layers

The factor of the power law was too large or too small for a float in a
thin layer: where the slowness increases with depth this was a ValueError,
elsewhere another law was used than for times and distances.
---
 taupy/SlownessLayer.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/taupy/SlownessLayer.py b/taupy/SlownessLayer.py
index f6ed845..19885c0 100644
--- a/taupy/SlownessLayer.py
+++ b/taupy/SlownessLayer.py
@@ -94,17 +94,13 @@ class SlownessLayer:
                 B = np.divide(math.log(self.topP / self.botP),
                               math.log((radiusOfEarth - self.topDepth)
                               / (radiusOfEarth - self.botDepth)))
-                # This is a cludge but it's needed to mimic the Java behaviour.
-                try:
-                    denom = math.pow((radiusOfEarth - self.topDepth), B)
-                except OverflowError:
-                    denom = np.inf
-                A = np.divide(self.topP, denom)
-                with np.errstate(divide='ignore', invalid='ignore'):
-                    tempDepth = radiusOfEarth - math.exp(
-                        1.0 / B * math.log(np.divide(rayParam, A)))
-                # or equivalent (maybe better stability?):
-                # tempDepth = radiusOfEarth - math.pow(rayParam/A, 1/B)
+                # Not with A = topP / (R - topDepth)^B, which is too large or
+                # too small for a float if the layer is thin.
+                with np.errstate(divide='ignore', over='ignore',
+                                 invalid='ignore'):
+                    tempDepth = float(
+                        radiusOfEarth - (radiusOfEarth - self.topDepth)
+                        * np.power(rayParam / self.topP, 1.0 / B))
                 # Check if slightly outside layer due to rounding or
                 # numerical instability:
                 if self.topDepth > tempDepth > self.topDepth - 0.000001:
@@ -175,16 +171,14 @@ class SlownessLayer:
             B = np.divide(math.log(np.divide(topP, botP)),
                           math.log(np.divide((radiusOfEarth - topDepth),
                                              (radiusOfEarth - botDepth))))
-            ADenominator = pow((radiusOfEarth - topDepth), B)
-            A = topP / ADenominator
-            answer = A * pow((radiusOfEarth - depth), B)
+            # Not with A = topP / (R - topDepth)^B, which is too large or too
+            # small for a float if the layer is thin.
+            answer = topP * pow((radiusOfEarth - depth) /
+                                (radiusOfEarth - topDepth), B)
             if answer < 0 or math.isnan(answer) or math.isinf(answer):
                 # numerical instability in power law calculation???
-                # try a linear interpolation if the layer is small ( <2 km)
-                # or if denominator of A is infinity as we probably overflowed
-                # the double in that case.
+                # try a linear interpolation if the layer is small ( <2 km).
                 if botDepth - topDepth < 2 \
-                        or math.isinf(ADenominator) \
                         or botP == 0:
                     linear = (botP - topP) / (botDepth - topDepth) * \
                              (depth - topDepth) + topP
-- 
2.43.0


From 045782ddee5ec171639efb23b605eab1e1f06bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 31/40] fix: high slowness zones that start at the surface

A planet whose velocity decreases from the surface on could not be sampled:
the surface was not looked at as an extremum of the slowness, so that the
zone was not found.
---
 taupy/SlownessModel.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 06783aa..30f9a9e 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -289,13 +289,16 @@ class SlownessModel(object):
                         DepthRange(topDepth=currPLayer.topDepth)
                     highSlownessZoneP.rayParam = minPSoFar
 
-            elif ((prevSLayer.topP - prevSLayer.botP) *
-                  (prevSLayer.botP - currSLayer.botP) < 0) or (
-                      (prevPLayer.topP - prevPLayer.botP) *
-                      (prevPLayer.botP - currPLayer.botP)) < 0:
-                # local slowness extrema, java l 1005
-                self.criticalDepths.append(
-                    CriticalDepth(currSLayer.topDepth, layerNum, -1, -1))
+            elif layerNum == 0 or (
+                    (prevSLayer.topP - prevSLayer.botP) *
+                    (prevSLayer.botP - currSLayer.botP) < 0) or (
+                        (prevPLayer.topP - prevPLayer.botP) *
+                        (prevPLayer.botP - currPLayer.botP)) < 0:
+                # local slowness extrema, java l 1005. The top, which is one
+                # if a high slowness zone starts there, is critical already.
+                if layerNum > 0:
+                    self.criticalDepths.append(
+                        CriticalDepth(currSLayer.topDepth, layerNum, -1, -1))
                 if self.DEBUG:
                     print("local slowness extrema, depth=" +
                           str(currSLayer.topDepth))
@@ -1242,8 +1245,9 @@ class SlownessModel(object):
         at the given depth, but if the depth is within a high slowness
         zone, then it may be smaller.
         """
-        minPSoFar = 1e300
         if self.depthInHighSlowness(depth, 1e300, isPWave):
+            # The zone may start at the surface.
+            minPSoFar = self.getSlownessLayer(0, isPWave).topP
             for sLayer in (self.PLayers if isPWave else self.SLayers):
                 if sLayer.botDepth == depth:
                     minPSoFar = min(minPSoFar, sLayer.botP)
-- 
2.43.0


From 49255086c85c18b172aad8dc791402c5b470008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 32/40] fix: the last ray above a high slowness zone was that
 through the zone

If a phase only turns above a zone that reaches the core (or another lower
end), the ray that grazes the zone was taken to cross it, and there were
arrivals all over the shadow.
---
 taupy/SeismicPhase.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 7dab944..84594be 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -739,7 +739,7 @@ class SeismicPhase(object):
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
             for hszi in hsz:
-                if self.maxRayParam > hszi.rayParam > self.minRayParam:
+                if self.maxRayParam > hszi.rayParam >= self.minRayParam:
                     # There is a high slowness zone within our ray parameter
                     # range so might need to add a shadow zone. Need to
                     # check if the current wave type is part of the phase at
@@ -790,9 +790,12 @@ class SeismicPhase(object):
                                 newtime[hszIndex] += tbs * taubs.time[
                                     self.maxRayParamIndex + hszIndex -
                                     indexOffset]
-                        newdist += self.dist[hszIndex:]
-                        newtime += self.time[hszIndex:]
-                        newrayParams += self.rayParams[hszIndex:]
+                        # If no other ray turns below the zone, then this one
+                        # does not either.
+                        if hszi.rayParam > self.minRayParam:
+                            newdist += self.dist[hszIndex:]
+                            newtime += self.time[hszIndex:]
+                            newrayParams += self.rayParams[hszIndex:]
                         shadowRayParams.append(hszi.rayParam)
                         self.dist = newdist
                         self.time = newtime
-- 
2.43.0


From 4c3a937a1a23c1776ce376f911f918f1296da37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 33/40] fix: sampling refused planets with slownesses that
 differ by rounding only

The depth of a slowness next to that at the end of a layer could be outside
of the layer by rounding.
---
 taupy/SlownessModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 30f9a9e..624b4aa 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -781,6 +781,9 @@ class SlownessModel(object):
                         (sLayer.botDepth - sLayer.topDepth)
                     botDepth = self.interpolate(p, topVelocity,
                                                 sLayer.topDepth, slope)
+                    # Not out of the layer because of rounding.
+                    botDepth = min(max(botDepth, sLayer.topDepth),
+                                   sLayer.botDepth)
                 botLayer = SlownessLayer(p, botDepth, sLayer.botP,
                                          sLayer.botDepth)
                 topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p,
-- 
2.43.0


From 264d5750e040766336428d510aa68e097f0d82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 34/40] fix: slowness steps at the bottom of a fluid layer in
 the mantle were never split

distanceCheck went on for ever adding the same slowness if the S slowness
below a fluid is smaller than the P slowness in it.
---
 taupy/SlownessModel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 624b4aa..3b6cc01 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -770,7 +770,12 @@ class SlownessModel(object):
                 if self.allowInnerCoreS is False \
                         and sLayer.botDepth > self.vMod.iocbDepth:
                     break
-                elif topVelocity == 0:
+                elif topVelocity == 0 and (botVelocity == 0 or
+                                           sLayer.topDepth !=
+                                           sLayer.botDepth or
+                                           sLayer.topP < sLayer.botP):
+                    # Rays are reflected at the bottom of a fluid only if
+                    # the slowness decreases there.
                     continue
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 botDepth = sLayer.botDepth
-- 
2.43.0


From 47b4322e985efb029646752ee458022e80e87b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 35/40] fix: one shadow zone for high slowness zones of P and S
 with the same ray parameter

---
 taupy/SeismicPhase.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 84594be..5272295 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -733,7 +733,7 @@ class SeismicPhase(object):
         # parameters that are associated with high slowness zones. If so,
         # then we will need to insert a "shadow zone" into our time and
         # distance arrays. It is represented by a repeated ray parameter.
-        shadowRayParams = []
+        shadowTops = {}
         for isPwave in [True, False]:
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
@@ -761,7 +761,13 @@ class SeismicPhase(object):
                         hszIndex = self.rayParams.index(hszi.rayParam)
                         # Shadow zones of either wave type inserted so far.
                         indexOffset = sum(p > hszi.rayParam
-                                          for p in shadowRayParams)
+                                          for p in shadowTops)
+                        # A zone of the other wave type may have the same
+                        # ray parameter, there is one shadow zone then.
+                        isNew = hszi.rayParam not in shadowTops
+                        tops = shadowTops.setdefault(
+                            hszi.rayParam, {True: math.inf, False: math.inf})
+                        tops[isPwave] = min(tops[isPwave], hszi.topDepth)
                         newdist = deepcopy(self.dist[:hszIndex])
                         newtime = deepcopy(self.time[:hszIndex])
                         newrayParams = deepcopy(self.rayParams[:hszIndex])
@@ -774,16 +780,14 @@ class SeismicPhase(object):
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
                             # Only the other wave type gets below the zone.
-                            if tb != 0 and (not isPwave or taub.topDepth
-                                            < hszi.topDepth):
+                            if tb != 0 and taub.topDepth < tops[True]:
                                 newdist[hszIndex] += tb * taub.dist[
                                     self.maxRayParamIndex + hszIndex -
                                     indexOffset]
                                 newtime[hszIndex] += tb * taub.time[
                                     self.maxRayParamIndex + hszIndex -
                                     indexOffset]
-                            if tbs != 0 and (isPwave or taubs.topDepth
-                                             < hszi.topDepth):
+                            if tbs != 0 and taubs.topDepth < tops[False]:
                                 newdist[hszIndex] += tbs * taubs.dist[
                                     self.maxRayParamIndex + hszIndex -
                                     indexOffset]
@@ -793,10 +797,10 @@ class SeismicPhase(object):
                         # If no other ray turns below the zone, then this one
                         # does not either.
                         if hszi.rayParam > self.minRayParam:
-                            newdist += self.dist[hszIndex:]
-                            newtime += self.time[hszIndex:]
-                            newrayParams += self.rayParams[hszIndex:]
-                        shadowRayParams.append(hszi.rayParam)
+                            rest = hszIndex if isNew else hszIndex + 1
+                            newdist += self.dist[rest:]
+                            newtime += self.time[rest:]
+                            newrayParams += self.rayParams[rest:]
                         self.dist = newdist
                         self.time = newtime
                         self.rayParams = newrayParams
-- 
2.43.0


From 2fb74b35e0f4d8ffd956df5d4457cba090d8e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 36/40] fix: P slownesses at which rays start or stop turning
 were missing in fluids

The sampling of S in a fluid follows that of P, and the ray parameters of
the model follow S: those of P that no solid layer has for S were left
out, so that P curves went on beyond the surface slowness and across
discontinuities.
---
 taupy/SlownessModel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 3b6cc01..bed0e4d 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -642,6 +642,13 @@ class SlownessModel(object):
             if highZone.rayParam != highSLayer.botP:
                 self.addSlowness(highZone.rayParam, self.PWAVE)
         # Make sure P and S are consistent
+        for layer in self.PLayers[:]:
+            if layer.topDepth == layer.botDepth or layer.topDepth == 0:
+                # Ray parameters at which P rays start or stop turning are
+                # needed in fluids as well: S layers are split with the P
+                # layers there.
+                self.addSlowness(layer.topP, self.PWAVE)
+                self.addSlowness(layer.botP, self.PWAVE)
         botP = -1
         for layer in self.PLayers:
             topP = layer.topP
-- 
2.43.0


From 977c9bf3279792eb8defbc51d6d6e3343176ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 37/40] fix: Pn and Sn went through a high slowness zone below
 the Moho

The path was that of a ray that turns in the uppermost branch of the mantle.
If a high slowness zone begins at the Moho, the head wave ray does get into
that branch, and its time and distance there were added. The head wave is
reflected at the Moho instead.
---
 taupy/SeismicPhase.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 5272295..32d690c 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -427,21 +427,19 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                          self.REFLECTTOP)
                     elif currLeg == "Pn" or currLeg == "Sn":
-                        # In the diffracted case we trick addtoBranch into
-                        # thinking we are turning below the Moho, but then
-                        # make the minRayParam equal to maxRayParam,
-                        # which is the head wave ray.
-                        if (self.maxRayParam >= tMod.getTauBranch(
-                                tMod.mohoBranch, isPWave).maxRayParam
-                                >= self.minRayParam):
+                        # The ray turns at the Moho, the head wave ray is
+                        # the one that just enters the mantle.
+                        headRayParam = tMod.getTauBranch(
+                            tMod.mohoBranch, isPWave).maxRayParam
+                        if self.maxRayParam >= headRayParam \
+                                >= self.minRayParam:
                             self.addToBranch(tMod, self.currBranch,
-                                             tMod.mohoBranch, isPWave,
-                                             self.TURN)
+                                             tMod.mohoBranch - 1, isPWave,
+                                             self.REFLECTBOT)
                             self.headOrDiffractSeq.append(
                                 len(self.branchSeq) - 1)
-                            self.addToBranch(tMod, self.currBranch,
-                                             tMod.mohoBranch, isPWave,
-                                             self.TRANSUP)
+                            self.maxRayParam = min(self.maxRayParam,
+                                                   headRayParam)
                             self.minRayParam = self.maxRayParam
                             if nextLeg == "END" or nextLeg.startswith("P") \
                                     or nextLeg.startswith("S"):
-- 
2.43.0


From 0a6e54811cc5b99a947354375e01f459b6598bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 38/40] fix: planets without an inner core had phases that are
 reflected at it

The branch closest to the centre was taken for the inner core, usually the
outer core itself, so that PKiKP was PcP and PKIKP arrived.
---
 taupy/SeismicPhase.py | 14 ++++++++++++--
 taupy/TauModel.py     | 12 +++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 32d690c..fbbcf0e 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -125,13 +125,15 @@ class SeismicPhase(object):
             puristName = self.name
             return puristName
         puristName = ""
+        # The last is the centre, for lack of a core.
+        depths = tMod.getBranchDepths() + [tMod.radiusOfEarth]
         # Only loop to penultimate element as last leg is always "END".
         for currLeg in self.legs[:-1]:
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
                 disconBranch = closestBranchToDepth(tMod, currLeg[1:])
-                legDepth = tMod.tauBranches[0][disconBranch].topDepth
+                legDepth = depths[disconBranch]
                 puristName += currLeg[0]
                 puristName += str(legDepth)
             else:
@@ -139,7 +141,7 @@ class SeismicPhase(object):
                     float(currLeg)
                     # If it is indeed a number:
                     disconBranch = closestBranchToDepth(tMod, currLeg)
-                    legDepth = tMod.tauBranches[0][disconBranch].topDepth
+                    legDepth = depths[disconBranch]
                     puristName += str(legDepth)
                 except ValueError:
                     # If currLeg is just a string:
@@ -161,6 +163,14 @@ class SeismicPhase(object):
         if "J" in self.name and not tMod.sMod.allowInnerCoreS:
             raise TauModelError("J phases are not created for this model: {}"
                                 .format(self.name))
+        # Nothing arrives from a core or inner core that does not exist.
+        noCore = tMod.cmbBranch == len(tMod.tauBranches[0])
+        noInnerCore = tMod.iocbBranch == len(tMod.tauBranches[0])
+        for leg in self.legs:
+            if noInnerCore and leg[-1] in "IJi" or noCore and (
+                    leg[-1] in "Kkc" or leg.endswith("diff")):
+                self.maxRayParam, self.minRayParam = -1, -1
+                return
         # Set currWave to be the wave type for this leg, P or S
         if currLeg == "p" or currLeg.startswith("P") or currLeg == "K" \
                 or currLeg == "k":
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 6ea72e6..3a852ef 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -154,10 +154,16 @@ class TauModel(object):
             if abs(tBranch.topDepth - self.sMod.vMod.iocbDepth) < bestIocb:
                 self.iocbBranch = branchNum
                 bestIocb = abs(tBranch.topDepth - self.sMod.vMod.iocbDepth)
+        # Planets without a core or an inner core.
+        if self.sMod.vMod.cmbDepth >= self.radiusOfEarth:
+            self.cmbBranch = len(self.tauBranches[0])
+        if self.iocbBranch <= self.cmbBranch:
+            self.iocbBranch = len(self.tauBranches[0])
         # Now set mohoDepth etc. to the top of the branches we have decided on.
-        self.mohoDepth = self.tauBranches[0][self.mohoBranch].topDepth
-        self.cmbDepth = self.tauBranches[0][self.cmbBranch].topDepth
-        self.iocbDepth = self.tauBranches[0][self.iocbBranch].topDepth
+        branchDepths = self.getBranchDepths() + [self.radiusOfEarth]
+        self.mohoDepth = branchDepths[self.mohoBranch]
+        self.cmbDepth = branchDepths[self.cmbBranch]
+        self.iocbDepth = branchDepths[self.iocbBranch]
         if not self.validate():
             raise TauModelError("TauModel.calcTauIncFrom: Validation failed!")
 
-- 
2.43.0


From 279c18db8c517d5f4783a2f570c9a69082c354a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 39/40] fix: phases with one ray only could not be calculated
 at its distance

Interpolation divided by the range of distances, which is zero for them, for
instance for Pms at 180 degrees in a planet without discontinuities.
---
 taupy/SeismicPhase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index fbbcf0e..5098cbb 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1055,14 +1055,15 @@ class SeismicPhase(object):
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-        arrivalTime = ((searchDist - self.dist[rayNum]) /
-                       (self.dist[rayNum + 1] - self.dist[rayNum])
+        # The only ray of a phase has no range of distances.
+        distStep = self.dist[rayNum + 1] - self.dist[rayNum] or 1
+        arrivalTime = ((searchDist - self.dist[rayNum]) / distStep
                        * (self.time[rayNum + 1] - self.time[rayNum]) +
                        self.time[rayNum])
         arrivalRayParam = ((searchDist - self.dist[rayNum + 1]) *
                            (self.rayParams[rayNum] -
                             self.rayParams[rayNum + 1])
-                           / (self.dist[rayNum] - self.dist[rayNum + 1]) +
+                           / -distStep +
                            self.rayParams[rayNum + 1])
         if name.endswith("kmps"):
             takeoffAngle = 0
-- 
2.43.0


From 1f544e085f2b6a5059c3e28818d3fb00f5543620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 40/40] fix: layers above a high slowness zone were not
 subdivided

distanceCheck left out the layer that ends where a high slowness zone
begins, and the reflections at the top of one, although rays turn there:
neighbouring rays could be far apart however small maxRangeInterval.
---
 taupy/SlownessModel.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index bed0e4d..69e7c0d 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -890,10 +890,7 @@ class SlownessModel(object):
             while j < self.getNumLayers(currWaveType):
                 prevSLayer = sLayer
                 sLayer = self.getSlownessLayer(j, currWaveType)
-                if (self.depthInHighSlowness(sLayer.botDepth, sLayer.botP,
-                                             currWaveType) is False
-                    and self.depthInHighSlowness(sLayer.topDepth, sLayer.topP,
-                                                 currWaveType) is False):
+                if not self.layerInHighSlowness(sLayer, currWaveType):
                     # Don't calculate prevTD if we can avoid it
                     if isCurrOK:
                         if isPrevOK:
@@ -1031,6 +1028,22 @@ class SlownessModel(object):
                     return True
         return False
 
+    def layerInHighSlowness(self, sLayer, isPWave):
+        """
+        Determines if the given slowness layer is part of a high slowness
+        zone. The layer that ends where the zone begins is not, nor are the
+        total reflections there.
+        """
+        if isPWave:
+            highSlownessLayerDepths = self.highSlownessLayerDepthsP
+        else:
+            highSlownessLayerDepths = self.highSlownessLayerDepthsS
+        return any(zone.topDepth <= sLayer.topDepth <= zone.botDepth
+                   and max(sLayer.topP, sLayer.botP) > zone.rayParam
+                   and (sLayer.botDepth > zone.topDepth
+                        or sLayer.botP > sLayer.topP)
+                   for zone in highSlownessLayerDepths)
+
     def approxDistance(self, slownessTurnLayer, p, isPWave):
         """
         Generates approximate distance, in radians, for a ray from a surface
-- 
2.43.0

