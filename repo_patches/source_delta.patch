From a3bf2d71828ee62017feb572d778c6d85144d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:01 +0000
Subject: [PATCH 01/37] fix: compare block ids directly when omitting bonds
 between blocks

The text-file discretization used the block id as an index into a square
table of size number-of-blocks. Block ids that are not 1..N made it read
outside of the table.
---
 .../Peridigm_TextFileDiscretization.cpp       | 25 ++++---------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index 6089c12..a9e65d0 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -352,27 +352,11 @@ PeridigmNS::TextFileDiscretization::createNeighborhoodData(const QUICKGRID::Data
 Teuchos::RCP<PeridigmNS::NeighborhoodData>
 PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::NeighborhoodData> unfilteredNeighborhoodData)
 {
-  // Set up a block bonding matrix, which defines whether or not bonds should be formed across blocks
-  int numBlocks = getNumBlocks();
-  std::vector< std::vector<bool> > blockBondingMatrix(numBlocks);
-  for(int i=0 ; i<numBlocks ; ++i){
-    blockBondingMatrix[i].resize(numBlocks, true);
-  }
-
   if(bondFilterCommand == "None"){
-    // All blocks are bonded, the blockBondingMatrix is unchanged
+    // All blocks are bonded
     return unfilteredNeighborhoodData;
   }
-  else if(bondFilterCommand == "All"){
-    // No blocks are bonded, the blockBondingMatrix is the identity matrix
-    for(int i=0 ; i<numBlocks ; ++i){
-      for(int j=0 ; j<numBlocks ; ++j){
-        if(i != j)
-          blockBondingMatrix[i][j] = false;
-      }
-    }
-  }
-  else{
+  else if(bondFilterCommand != "All"){
     string msg = "**** Error, unrecognized value for \"Omit Bonds Between Blocks\":  ";
     msg += bondFilterCommand + "\n";
     msg += "**** Valid options are:  All, None\n";
@@ -387,7 +371,8 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
   Teuchos::RCP<Epetra_Vector> ownedBlockIDs = getBlockID();
   blockIDs.Import(*ownedBlockIDs, importer, Insert);
 
-  // Apply the block bonding matrix and create a new NeighborhoodData
+  // Keep only the bonds within a block and create a new NeighborhoodData
+  // Note that block ids need not be contiguous, so they are compared directly
   Teuchos::RCP<PeridigmNS::NeighborhoodData> neighborhoodData = Teuchos::rcp(new PeridigmNS::NeighborhoodData);
   neighborhoodData->SetNumOwned(unfilteredNeighborhoodData->NumOwnedPoints());
   memcpy(neighborhoodData->OwnedIDs(), unfilteredNeighborhoodData->OwnedIDs(), neighborhoodData->NumOwnedPoints()*sizeof(int));
@@ -407,7 +392,7 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
     for(int iNID=0 ; iNID<numUnfilteredNeighbors ; ++iNID){
       int unfilteredNeighborID = unfilteredNeighborhoodList[unfilteredNeighborhoodListIndex++];
       int unfilteredNeighborBlockID = static_cast<int>(blockIDs[unfilteredNeighborID]);
-      if(blockBondingMatrix[blockID-1][unfilteredNeighborBlockID-1] == true){
+      if(blockID == unfilteredNeighborBlockID){
         neighborhoodListVec.push_back(unfilteredNeighborID);
         numNeighbors += 1;
       }
-- 
2.43.0


From df5bf80bbae9ed5f7b9afcfd1e1b8cfefc48e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:50 +0000
Subject: [PATCH 02/37] fix: ghost points by the largest horizon over all
 processors in the neighbor search

A point was sent to another processor only if that processor was within the
point's own horizon. A point there with a larger horizon then missed it as a
neighbor, so neighborhoods depended on the decomposition.
---
 src/io/pdneigh/NeighborhoodList.cxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/io/pdneigh/NeighborhoodList.cxx b/src/io/pdneigh/NeighborhoodList.cxx
index 0ebf8aa..d33d674 100644
--- a/src/io/pdneigh/NeighborhoodList.cxx
+++ b/src/io/pdneigh/NeighborhoodList.cxx
@@ -378,12 +378,16 @@ void NeighborhoodList::createAndAddNeighborhood(){
 
   enum {COMM_CREATE=9,COMM_DO=10};
 
-  // Find the maximum horizon and use this to create the frame set
-  double maxHorizon = 0.0;
+  // Find the maximum horizon over all processors and use this to create the frame set
+  // Note that a point must be sent to every processor that may have it in a neighborhood,
+  // which depends on the horizons of the points on that processor
+  double maxLocalHorizon = 0.0;
   for(int i=0 ; i<horizons->MyLength() ; ++i){
-    if((*horizons)[i] > maxHorizon)
-      maxHorizon = (*horizons)[i];
+    if((*horizons)[i] > maxLocalHorizon)
+      maxLocalHorizon = (*horizons)[i];
   }
+  double maxHorizon = 0.0;
+  horizons->Comm().MaxAll(&maxLocalHorizon, &maxHorizon, 1);
 
 //  shared_ptr< std::set<int> > frameSet = constructParallelDecompositionFrameSet();
   shared_ptr< std::set<int> > frameSet = UTILITIES::constructFrameSet(num_owned_points,owned_x,maxHorizon);
@@ -428,8 +432,6 @@ void NeighborhoodList::createAndAddNeighborhood(){
     int numProcsPoint;
     std::set<int>::iterator myPointsIter = frameSet->begin();
     double *x = owned_x.get();
-    double *horizon;
-    horizons->ExtractView(&horizon);
 
     for(;myPointsIter!=frameSet->end();myPointsIter++){
 
@@ -438,8 +440,7 @@ void NeighborhoodList::createAndAddNeighborhood(){
        */
       int id = *myPointsIter;
       const double *xP = x+dimension*id;
-            const double *horizonP = horizon+id;
-      PointCenteredBoundingBox bb(xP,*horizonP);
+      PointCenteredBoundingBox bb(xP,maxHorizon);
 //      if(1==rank){
 //        std::cout << "localId, x,y,z = " << id << ", " << *xP << ", " << *(xP+1) << ", " << *(xP+2) << std::endl;
 //        std::cout << "xMin, xMax " << bb.get_xMin() << ", " << bb.get_xMax() << std::endl;
-- 
2.43.0


From 5f4ca568f6f5e0b4aab9c84470ad64bbe2fe99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:41 +0000
Subject: [PATCH 03/37] fix: stored elastic energy density of a point without
 neighbors is zero, not NaN

---
 src/materials/Peridigm_ElasticMaterial.cpp             | 3 ++-
 src/materials/Peridigm_MultiphysicsElasticMaterial.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/materials/Peridigm_ElasticMaterial.cpp b/src/materials/Peridigm_ElasticMaterial.cpp
index 121fdd8..263be87 100644
--- a/src/materials/Peridigm_ElasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticMaterial.cpp
@@ -211,7 +211,8 @@ PeridigmNS::ElasticMaterial::computeStoredElasticEnergyDensity(const double dt,
     nodeCurrentX[1] = y[nodeId*3+1];
     nodeCurrentX[2] = y[nodeId*3+2];
     nodeDilatation = dilatation[nodeId];
-    alpha = 15.0*m_shearModulus/weightedVolume[nodeId];
+    // A point without neighbors has zero weighted volume and stores no deviatoric energy
+    alpha = weightedVolume[nodeId] > 0.0 ? 15.0*m_shearModulus/weightedVolume[nodeId] : 0.0;
 
     temp = 0.0;
 
diff --git a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
index bd0529f..6ba9fb2 100644
--- a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
+++ b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
@@ -302,7 +302,8 @@ PeridigmNS::MultiphysicsElasticMaterial::computeStoredElasticEnergyDensity(const
     nodeCurrentX[1] = y[nodeId*3+1];
     nodeCurrentX[2] = y[nodeId*3+2];
     nodeDilatation = dilatation[nodeId];
-    alpha = 15.0*m_shearModulus/weightedVolume[nodeId];
+    // A point without neighbors has zero weighted volume and stores no deviatoric energy
+    alpha = weightedVolume[nodeId] > 0.0 ? 15.0*m_shearModulus/weightedVolume[nodeId] : 0.0;
     alpha *= surfaceCorrectionFactor[nodeId];
 
     temp = 0.0;
-- 
2.43.0


From c049c2f8ee5fdd074beb723c5c64bf16d12853dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:10 +0000
Subject: [PATCH 04/37] fix: add the momenta of all blocks as vectors before
 taking the magnitude of the global momentum

---
 .../Peridigm_Compute_Angular_Momentum.cpp     | 23 ++++++++++---------
 .../Peridigm_Compute_Linear_Momentum.cpp      | 19 ++++++++-------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Angular_Momentum.cpp b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
index 34b2549..408100e 100644
--- a/src/compute/Peridigm_Compute_Angular_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
@@ -84,7 +84,8 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
 {
   int retval;
 
-  double globalAM = 0.0;
+  // totals over all blocks on this processor
+  std::vector<double> localAngularMomentum(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity,  arm, volume, angular_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -144,21 +145,21 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
     
     if (!storeLocal)
     {
-      // Update info across processors
-      std::vector<double> localAngularMomentum(3), globalAngularMomentum(3);
-      localAngularMomentum[0] = angular_momentum_x;
-      localAngularMomentum[1] = angular_momentum_y;
-      localAngularMomentum[2] = angular_momentum_z;
-
-      epetraComm->SumAll(&localAngularMomentum[0], &globalAngularMomentum[0], 3);
-
-      globalAM += sqrt(globalAngularMomentum[0]*globalAngularMomentum[0] + globalAngularMomentum[1]*globalAngularMomentum[1] + globalAngularMomentum[2]*globalAngularMomentum[2]);
+      localAngularMomentum[0] += angular_momentum_x;
+      localAngularMomentum[1] += angular_momentum_y;
+      localAngularMomentum[2] += angular_momentum_z;
     }
   }
 
   // Store global angular momentum
-  if (!storeLocal)  
+  if (!storeLocal)
+  {
+    // Update info across processors
+    std::vector<double> globalAngularMomentum(3);
+    epetraComm->SumAll(&localAngularMomentum[0], &globalAngularMomentum[0], 3);
+    double globalAM = sqrt(globalAngularMomentum[0]*globalAngularMomentum[0] + globalAngularMomentum[1]*globalAngularMomentum[1] + globalAngularMomentum[2]*globalAngularMomentum[2]);
     (*(blocks->begin()->getData(m_globalAngularMomentumFieldId, PeridigmField::STEP_NONE)))[0] = globalAM;
+  }
 
   return(0);
 
diff --git a/src/compute/Peridigm_Compute_Linear_Momentum.cpp b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
index ac45d86..290169c 100644
--- a/src/compute/Peridigm_Compute_Linear_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
@@ -82,7 +82,8 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 {
   int retval;
 
-  double globalLM = 0.0;
+  // totals over all blocks on this processor
+  std::vector<double> localLinearMomentum(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity, volume, linear_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -137,15 +138,9 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 
     if (!storeLocal)
     {
-      // Update info across processors
-      std::vector<double> localLinearMomentum(3), globalLinearMomentum(3);
-      localLinearMomentum[0] = linear_momentum_x;
-      localLinearMomentum[1] = linear_momentum_y;
-      localLinearMomentum[2] = linear_momentum_z;
-
-      epetraComm->SumAll(&localLinearMomentum[0], &globalLinearMomentum[0], 3);
-
-      globalLM += sqrt(globalLinearMomentum[0]*globalLinearMomentum[0] + globalLinearMomentum[1]*globalLinearMomentum[1] + globalLinearMomentum[2]*globalLinearMomentum[2]);
+      localLinearMomentum[0] += linear_momentum_x;
+      localLinearMomentum[1] += linear_momentum_y;
+      localLinearMomentum[2] += linear_momentum_z;
     }
   }
 
@@ -162,6 +157,10 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 
   // Store global energy in block (block globals are static, so only need to assign data to first block)
   if (!storeLocal){
+    // Update info across processors
+    std::vector<double> globalLinearMomentum(3);
+    epetraComm->SumAll(&localLinearMomentum[0], &globalLinearMomentum[0], 3);
+    double globalLM = sqrt(globalLinearMomentum[0]*globalLinearMomentum[0] + globalLinearMomentum[1]*globalLinearMomentum[1] + globalLinearMomentum[2]*globalLinearMomentum[2]);
     Teuchos::RCP<Epetra_Vector> data = blocks->begin()->getData(m_globalLinearMomentumFieldId, PeridigmField::STEP_NONE);
     (*data)[0] = globalLM;
   }
-- 
2.43.0


From 15495a42e8c9128a33597776fa5c3732ecab20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:33 +0000
Subject: [PATCH 05/37] fix: keep bonds broken by a time dependent critical
 stretch broken in later steps

---
 ...digm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index c705cee..b024c69 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -184,8 +184,7 @@ PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::computeDamage(co
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
   // Set the bond damage to the previous value
-  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1) =
-    dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N);
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) = *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
 
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
-- 
2.43.0


From 0521010cb27c7460dd51b2cc53aa46957b984946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:56 +0000
Subject: [PATCH 06/37] fix: keep bonds broken in earlier steps broken in the
 interface aware damage model

---
 src/damage/Peridigm_InterfaceAwareDamageModel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
index 7672cf1..bbe9c19 100644
--- a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
+++ b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
@@ -120,10 +120,11 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
                                                       const int* neighborhoodList,
                                                       PeridigmNS::DataManager& dataManager) const
 {
-  double *x, *y, *damage, *bondDamage, *deltaTemperature, *criticalStretch;
+  double *x, *y, *damage, *bondDamageN, *bondDamage, *deltaTemperature, *criticalStretch;
   dataManager.getData(m_modelCoordinatesFieldId, PeridigmField::STEP_NONE)->ExtractView(&x);
   dataManager.getData(m_coordinatesFieldId, PeridigmField::STEP_NP1)->ExtractView(&y);
   dataManager.getData(m_damageFieldId, PeridigmField::STEP_NP1)->ExtractView(&damage);
+  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N)->ExtractView(&bondDamageN);
   dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)->ExtractView(&bondDamage);
   dataManager.getData(m_criticalStretchFieldId, PeridigmField::STEP_NONE)->ExtractView(&criticalStretch);
   deltaTemperature = NULL;
@@ -150,6 +151,9 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
     for(iNID=0 ; iNID<numNeighbors ; ++iNID){
       neighborID = neighborhoodList[neighborhoodListIndex++];
       const double neighborCriticalStretch = criticalStretch[neighborID];
+      // A bond that was broken in a previous step stays broken
+      if(bondDamageN[bondIndex] > bondDamage[bondIndex])
+        bondDamage[bondIndex] = bondDamageN[bondIndex];
       // Skip neighbors that do not allow bond breaking or bonds that are already broken
       if(bondDamage[bondIndex]!=0.0 || neighborCriticalStretch == 0.0){bondIndex+=1;continue;}
 
-- 
2.43.0


From 14102176d4ed8b4268e6de6daea796de55cfd2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:14 +0000
Subject: [PATCH 07/37] fix: start the evaluation of an expression at the
 current time from zero, not from its previous value

---
 ...digm_UserDefinedTimeDependentShortRangeForceContactModel.cpp | 2 ++
 src/core/Peridigm_BoundaryCondition.cpp                         | 2 ++
 ...idigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
index e9f5d75..0592a68 100644
--- a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
+++ b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
@@ -127,6 +127,8 @@ void PeridigmNS::UserDefinedTimeDependentShortRangeForceContactModel::evaluatePa
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(1, 0.0);
   if(success)
     success = rtcFunction->varValueFill(0, timeCurrent);
   if(success)
diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index d1129f5..7158bc8 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -118,6 +118,8 @@ void PeridigmNS::BoundaryCondition::evaluateParser(const int & localNodeID, doub
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(4, 0.0);
   if(success)
     success = rtcFunction->varValueFill(3, timeCurrent);
   if(success)
diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index b024c69..c3d1b27 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -116,6 +116,8 @@ void PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::evaluatePar
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(1, 0.0);
   if(success)
     success = rtcFunction->varValueFill(0, timeCurrent);
   if(success)
-- 
2.43.0


From 9082fc964a7de1654000276fe1a51e492f7191a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:14 +0000
Subject: [PATCH 08/37] fix: keep all digits of a boundary condition value
 given as a number

---
 src/core/Peridigm_BoundaryCondition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index 7158bc8..8ea6d3f 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -71,6 +71,7 @@ PeridigmNS::BoundaryCondition::BoundaryCondition(const string & name_,
   coord = to_index(to_spatial_coordinate(bcParams));
   if(bcParams.isType<double>("Value")){
     std::stringstream ss;
+    ss.precision(17);
     ss << bcParams.get<double>("Value");
     bcParams.set("Value", ss.str());
   }
-- 
2.43.0


From 71e084486b2c2a266bf41b4a49479b11a75cbe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:27 +0000
Subject: [PATCH 09/37] fix: do not repeat the last node of a node set list
 that ends with a blank

---
 src/core/Peridigm_BoundaryAndInitialConditionManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
index 723e1ee..7ae5083 100644
--- a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
+++ b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
@@ -223,12 +223,12 @@ void PeridigmNS::BoundaryAndInitialConditionManager::initializeNodeSets(Teuchos:
         // The string is a list of node numbers
         stringstream ss(Teuchos::getValue<string>(it->second));
         int nodeID;
-        while(ss.good()){
-          ss >> nodeID;
+        while(ss >> nodeID){
           // Convert from 1-based node numbering (Exodus II) to 0-based node numbering (Epetra and all the rest of Peridigm)
           TEUCHOS_TEST_FOR_EXCEPT_MSG(nodeID < 1, "**** Error:  Node number 0 detected in nodeset definition; node numbering must begin with 1.\n");
           nodeList.push_back(nodeID - 1);
         }
+        TEUCHOS_TEST_FOR_EXCEPT_MSG(!ss.eof(), "**** Error:  Invalid node number detected in nodeset definition: " + Teuchos::getValue<string>(it->second) + "\n");
       }
       else{
         // The string is the name of a file containing the node numbers
-- 
2.43.0


From 5ba678a5ee279d32f1563b4c4d7daad5d41247df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:25 +0000
Subject: [PATCH 10/37] fix: start the maximum over a block or node set from
 the lowest number so that negative maxima are reported

---
 src/compute/Peridigm_Compute_Block_Data.cpp    | 2 +-
 src/compute/Peridigm_Compute_Node_Set_Data.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Block_Data.cpp b/src/compute/Peridigm_Compute_Block_Data.cpp
index 4eb3fa0..18c1608 100644
--- a/src/compute/Peridigm_Compute_Block_Data.cpp
+++ b/src/compute/Peridigm_Compute_Block_Data.cpp
@@ -132,7 +132,7 @@ int PeridigmNS::Compute_Block_Data::compute( Teuchos::RCP< std::vector<PeridigmN
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
diff --git a/src/compute/Peridigm_Compute_Node_Set_Data.cpp b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
index 8a2f155..c5f05d3 100644
--- a/src/compute/Peridigm_Compute_Node_Set_Data.cpp
+++ b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
@@ -149,7 +149,7 @@ int PeridigmNS::Compute_Node_Set_Data::compute( Teuchos::RCP< std::vector<Peridi
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
-- 
2.43.0


From 900cf5ed502b1ee2a1f4d2422066ed47f1a0a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:25 +0000
Subject: [PATCH 11/37] fix: trim a string of blanks to an empty one so that
 blank lines in mesh and node set files are skipped

---
 src/core/Peridigm_Enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Peridigm_Enums.cpp b/src/core/Peridigm_Enums.cpp
index 7554b9e..1f0bdcc 100644
--- a/src/core/Peridigm_Enums.cpp
+++ b/src/core/Peridigm_Enums.cpp
@@ -298,7 +298,7 @@ Boundary_Condition_Type to_boundary_condition_type(const std::string & str)
 std::string trim(std::string const & str){
     size_t first = str.find_first_not_of(' ');
     if (std::string::npos == first) {
-        return str;
+        return std::string();
     }
     size_t last = str.find_last_not_of(' ');
     return str.substr(first, (last - first + 1));
-- 
2.43.0


From 3eccc08c1507d353db21dff60aa27d4020e205f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:25 +0000
Subject: [PATCH 12/37] fix: name the blocks of a text file by their full
 number, also from one million on

---
 src/io/discretization/Peridigm_TextFileDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index a9e65d0..ec60195 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -241,7 +241,7 @@ QUICKGRID::Data PeridigmNS::TextFileDiscretization::getDecomp(const string& text
   // Create the element list for each block
   for(int i=0 ; i<rebalancedBlockID.MyLength() ; ++i){
     stringstream blockName;
-    blockName << "block_" << rebalancedBlockID[i];
+    blockName << "block_" << static_cast<int>(rebalancedBlockID[i]);
     TEUCHOS_TEST_FOR_TERMINATION(elementBlocks->find(blockName.str()) == elementBlocks->end(),
                                 "\n**** Error in TextFileDiscretization::getDecomp(), invalid block id.\n");
     int globalID = rebalancedBlockID.Map().GID(i);
-- 
2.43.0


From 3ab861c6f6548a6ffc605c8fe0042666c168a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:25 +0000
Subject: [PATCH 13/37] fix: use the whole quadrilateral, not only its first
 three corners, for initial damage given by a mesh

---
 src/damage/Peridigm_InitialDamageModel.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/damage/Peridigm_InitialDamageModel.cpp b/src/damage/Peridigm_InitialDamageModel.cpp
index 4999f1f..81949fb 100644
--- a/src/damage/Peridigm_InitialDamageModel.cpp
+++ b/src/damage/Peridigm_InitialDamageModel.cpp
@@ -101,10 +101,14 @@ PeridigmNS::InitialDamageModel::initialize(const double dt,
     }
     else if(type == "Exodus Mesh"){
       std::string file_name = params.get<std::string>("File Name");
-      std::vector< std::vector< std::vector<double> > > triangles;
-      GenesisToPolygons(file_name, triangles);
-      for(unsigned int i=0 ; i<triangles.size() ; i++){
-        std::shared_ptr<PdBondFilter::BondFilter> bondFilter(new PdBondFilter::TriangleFilter(triangles[i][0].data(), triangles[i][1].data(), triangles[i][2].data()));
+      std::vector< std::vector< std::vector<double> > > polygons;
+      GenesisToPolygons(file_name, polygons);
+      for(unsigned int i=0 ; i<polygons.size() ; i++){
+        std::shared_ptr<PdBondFilter::BondFilter> bondFilter;
+        if(polygons[i].size() == 4)
+          bondFilter.reset(new PdBondFilter::QuadFilter(polygons[i][0].data(), polygons[i][1].data(), polygons[i][2].data(), polygons[i][3].data()));
+        else
+          bondFilter.reset(new PdBondFilter::TriangleFilter(polygons[i][0].data(), polygons[i][1].data(), polygons[i][2].data()));
         bondFilters.push_back(bondFilter);
       }
     }
-- 
2.43.0


From aa86781bb1790830d1407a5a803053154150b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:24 +0000
Subject: [PATCH 14/37] fix: place the cylinder of the mesh generator at the
 given ring center

---
 src/io/mesh_input/quick_grid/QuickGrid.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io/mesh_input/quick_grid/QuickGrid.cxx b/src/io/mesh_input/quick_grid/QuickGrid.cxx
index e361074..8276e18 100644
--- a/src/io/mesh_input/quick_grid/QuickGrid.cxx
+++ b/src/io/mesh_input/quick_grid/QuickGrid.cxx
@@ -1427,6 +1427,7 @@ std::pair<Cell3D,QuickGridData> TensorProductCylinderMeshGenerator::computePdGri
   size_t cell = 0;
   double point[3]={0.0,0.0,0.0};
   double pointNeighbor[3] = {0.0,0.0,0.0};
+  const Vector3D center = ringSpec.getCenter();
   for(size_t k=kStart;k<nz && cell<myNumCells;k++){
     // kStart = 0; this one doesn't matter
     cellLocator.k = k;
@@ -1448,9 +1449,10 @@ std::pair<Cell3D,QuickGridData> TensorProductCylinderMeshGenerator::computePdGri
         double r = x[i];
         point[0] = r * c;
         point[1] = r * s;
-        // copy point data
-        for(size_t p=0;p<3;p++,XPtr++)
-          *XPtr = point[p];
+        // copy point data; the center of the ring moves the cylinder in the plane
+        *XPtr = point[0] + center[0]; XPtr++;
+        *XPtr = point[1] + center[1]; XPtr++;
+        *XPtr = point[2]; XPtr++;
 
         // copy cell volume
         cellVolume = r*dr*cellRads*dz;
-- 
2.43.0


From ba050f9ec99454857aa0f5faa442a4659556147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:32 +0000
Subject: [PATCH 15/37] fix: accept a user defined preconditioner in every load
 step of a matrix-free solve, not only in the first

---
 src/core/Peridigm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index e1c7884..c7dc88a 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -2306,7 +2306,8 @@ void PeridigmNS::Peridigm::executeNOXQuasiStatic(Teuchos::RCP<Teuchos::Parameter
 
       // For matrix-free solves with the block 3x3 preconditioner, the only valid NOX->Direction->Newton->Linear Solver->Preconditioner options
       // are "None" and "User Defined"
-      if(linearSystemParams->isParameter("Preconditioner")){
+      // The parameter is replaced below, so check it only once
+      if(step == 1 && linearSystemParams->isParameter("Preconditioner")){
         std::string linSysPreconditioner = linearSystemParams->get<std::string>("Preconditioner");
         TEUCHOS_TEST_FOR_EXCEPT_MSG(linSysPreconditioner != "User Defined" && linSysPreconditioner != "None",
                                   "\n****Error:  Peridigm only supports \"Preconditioner = User Defined\" and \"Preconditioner = None\" for NOX with Jacobian Free Newton Krylov and the Peridigm Block 3x3 preconditioner.\n");
-- 
2.43.0


From 83cc44d8d057af194e7f1e11e21b7f0e73862730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:32 +0000
Subject: [PATCH 16/37] fix: remove the couplings to constrained unknowns of
 other processes from the tangent, so that they stay fixed

---
 ...igm_BoundaryAndInitialConditionManager.cpp | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
index 7ae5083..1bc3ef1 100644
--- a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
+++ b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
@@ -467,13 +467,23 @@ void PeridigmNS::BoundaryAndInitialConditionManager::applyKinematicBC_InsertZero
       }
 
       // zero out the columns associated with kinematic boundary conditions:
-      // create the list of columns only once:
-      int columnIndex(0);
+      // create the list of columns only once; the node lists contain only locally-owned nodes,
+      // so the flags of columns that belong to other processors must be communicated
+      Epetra_Vector isConstrained(mat->DomainMap());
       for(unsigned int i=0 ; i<nodeList.size() ; i++){
-        const int globalID = numDof * nodeList[i] + offset + coord;
-        const int localColID = mat->LCID(globalID);
-        if(localColID != -1)
-          jacobianColIndices[columnIndex++] = localColID;
+        const int localID = mat->DomainMap().LID(static_cast<int>(numDof * nodeList[i] + offset + coord));
+        if(localID != -1)
+          isConstrained[localID] = 1.0;
+      }
+      Epetra_Vector isConstrainedColumn(mat->ColMap());
+      if(mat->Importer() != 0)
+        isConstrainedColumn.Import(isConstrained, *mat->Importer(), Insert);
+      else
+        isConstrainedColumn = isConstrained;
+      int columnIndex(0);
+      for(int iCol=0 ; iCol<mat->NumMyCols() ; ++iCol){
+        if(isConstrainedColumn[iCol] != 0.0)
+          jacobianColIndices[columnIndex++] = iCol;
       }
       // iterate the local rows and set the approprate column values to 0
       int numEntriesToSetToZero = columnIndex;
-- 
2.43.0


From 5c02431984e13d26928b6c4713674e94f5833506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:22 +0000
Subject: [PATCH 17/37] fix: let the plastic materials fill a block diagonal
 tangent if that is what was asked for

---
 .../Peridigm_ElasticPlasticHardeningMaterial.cpp         | 9 ++++++---
 src/materials/Peridigm_ElasticPlasticMaterial.cpp        | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
index 1b83c67..383e376 100644
--- a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
@@ -201,11 +201,11 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeJacobian(const double dt,
 {
   if(m_applyAutomaticDifferentiationJacobian){
     // Compute the Jacobian via automatic differentiation
-    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);  
+    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
   else{
     // Call the base class function, which computes the Jacobian by finite difference
-    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);
+    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
 }
 
@@ -338,7 +338,10 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeAutomaticDifferentiationJaco
     }
 
     // Sum the values into the global tangent matrix (this is expensive).
-    jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    if (jacobianType == PeridigmNS::Material::BLOCK_DIAGONAL)
+      jacobian.addBlockDiagonalValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else
+      jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
   }
 }
 
diff --git a/src/materials/Peridigm_ElasticPlasticMaterial.cpp b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
index dc014ae..252bb67 100644
--- a/src/materials/Peridigm_ElasticPlasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
@@ -190,11 +190,11 @@ PeridigmNS::ElasticPlasticMaterial::computeJacobian(const double dt,
 {
   if(m_applyAutomaticDifferentiationJacobian){
     // Compute the Jacobian via automatic differentiation
-    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);  
+    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
   else{
     // Call the base class function, which computes the Jacobian by finite difference
-    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);
+    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
 }
 
@@ -327,7 +327,10 @@ PeridigmNS::ElasticPlasticMaterial::computeAutomaticDifferentiationJacobian(cons
     }
 
     // Sum the values into the global tangent matrix (this is expensive).
-    jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    if (jacobianType == PeridigmNS::Material::BLOCK_DIAGONAL)
+      jacobian.addBlockDiagonalValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else
+      jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
   }
 }
 
-- 
2.43.0


From 13e9389d764913c7abe6d4899881094706acb49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:37 +0000
Subject: [PATCH 18/37] fix: use the external forces at the end of the step in
 implicit time integration

---
 src/core/Peridigm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index c7dc88a..2246535 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -3716,6 +3716,10 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "Load step " << step << ", initial time = " << step*dt << ", final time = " << (step+1)*dt << endl;
 
+    // External forces are those at the end of the step
+    timePrevious = timeCurrent;
+    timeCurrent = timeInitial + (step+1)*dt;
+
     *un = *u;
     *vn = *v;
     *an = *a;
@@ -4001,9 +4005,6 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "  iteration " << NLSolverIteration << ": residual = " << residualNorm << "\n" << endl;
 
-    timePrevious = timeCurrent;
-    timeCurrent = timeInitial + (step+1)*dt;
-
     // Write output for completed time step
     PeridigmNS::Timer::self().startTimer("Output");
     synchDataManagers();
-- 
2.43.0


From 061c1958d718b9db284ef00c4f7f876406b71e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:38 +0000
Subject: [PATCH 19/37] fix: weigh masses and residual by the volume of each
 point like the tangent in implicit time integration, so that Newton's method
 converges

---
 src/core/Peridigm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 2246535..c6f72b2 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -3873,7 +3873,9 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
       boundaryAndInitialConditionManager->applyKinematicBC_InsertZerosAndSetDiagonal(tangent);
 
       // Want to solve J*displacementIncrement = -residual
-      residual->Scale(-1.0);
+      // The tangent is in terms of forces, the residual in terms of force densities
+      for(int i=0 ; i<residual->MyLength() ; ++i)
+        (*residual)[i] *= -(*volume)[i/(3+numMultiphysDoFs)];
 
       // Solve linear system
       displacementIncrement->PutScalar(0.0);
@@ -4335,7 +4337,7 @@ void PeridigmNS::Peridigm::computeImplicitJacobian(double beta, double dt) {
   Epetra_Vector diagonal(tangent->RowMap());
   tangent->ExtractDiagonalCopy(diagonal);
   for(int i=0 ; i<diagonal.MyLength() ; ++i)
-    diagonal[i] += (*density)[i/3];
+    diagonal[i] += (*density)[i/3] * (*volume)[i/3];
   tangent->ReplaceDiagonalValues(diagonal);
 }
 
-- 
2.43.0


From b68ac74fe7666571f613a23bae97d1967480a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:27 +0000
Subject: [PATCH 20/37] fix: start the coupled displacement and pressure solve
 of a quasi-static load step from the current displacement and pressure, so
 that initial values are not dropped

---
 src/core/Peridigm.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index c6f72b2..0976c7a 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -2696,6 +2696,13 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
         unknownsDeltaUPtr[i+3] = fluidPressureDeltaUPtr[i/(3+numMultiphysDoFs)];
       }
 
+      for(int i=0 ; i<unknownsU->MyLength() ; i+=(3+numMultiphysDoFs)){
+        for(int j=0; j<3; ++j){
+          unknownsUPtr[i+j] = uPtr[i*3/(3+numMultiphysDoFs)+j];
+        }
+        unknownsUPtr[i+3] = fluidPressureUPtr[i/(3+numMultiphysDoFs)];
+      }
+
       for(int i=0 ; i<fluidPressureY->MyLength() ; ++i){
         fluidPressureYPtr[i] = fluidPressureUPtr[i] + fluidPressureDeltaUPtr[i];
         fluidPressureVPtr[i] = fluidPressureDeltaUPtr[i]/timeIncrement;
-- 
2.43.0


From cac468d4a8dcdea6022b2c5fa0d3a86db7bc51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:47 +0000
Subject: [PATCH 21/37] fix: write the time of a restart file with all digits

A run that ended at a time with more than six digits could not be
restarted: its stored time was rounded and then compared exactly.
---
 src/core/Peridigm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 0976c7a..90277c5 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4476,7 +4476,7 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
   currentTime += solverParams->get("Final Time", 1.0)-timeInitial;
   ofstream outputFile;
   outputFile.open(restartFiles["currentTime"].c_str());
-  outputFile << "Current time is " << "\n" << currentTime  << "\n";
+  outputFile << "Current time is " << "\n" << setprecision(17) << currentTime  << "\n";
   outputFile.close();
   }
   if(analysisHasMultiphysics){
-- 
2.43.0


From a0ef6703e9cfb00c5c8502f27fcebc6457698f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:47 +0000
Subject: [PATCH 22/37] fix: check the time of a restart on every process and
 up to rounding

Only the first process compared the times, so a refused restart left the
others waiting forever. The stored time is a sum, so it may differ from
the initial time by a rounding error.
---
 src/core/Peridigm.cpp | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 90277c5..6250005 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4543,29 +4543,26 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
   double* oldPtr;
   Epetra_Vector * vectorUpdate;
   std::string trash, data;
-  if(peridigmComm->MyPID() == 0){
-    //read global current time
-    ifstream outputFile;
-    outputFile.open(restartFiles["currentTime"].c_str());
-    if (!outputFile.fail())
-    {
-      getline(outputFile,trash);
-      getline(outputFile,data);
-      outputFile.close();
-    }
-    currentTime = atof(data.c_str());
+  //read global current time
+  ifstream outputFile;
+  outputFile.open(restartFiles["currentTime"].c_str());
+  if (!outputFile.fail())
+  {
+    getline(outputFile,trash);
+    getline(outputFile,data);
+    outputFile.close();
   }
+  currentTime = atof(data.c_str());
   if(peridigmComm->MyPID() == 0){
     cout <<"Reading restart. \n"<< endl;
     cout.flush();
-    double timeInitial = solverParams->get("Initial Time", 0.0);
-    if (currentTime != timeInitial){
-      char timeError[251];
-      sprintf(timeError, "Error, Incompatible times:\nPrevious restart final time is %e, while initial time is %e.\n",currentTime,timeInitial);
-      TEUCHOS_TEST_FOR_EXCEPT_MSG(true,timeError);
-      MPI_Finalize();
-      exit(0);
-    }
+  }
+  // All processors must stop if the times are incompatible, i.e., if they differ by more than rounding
+  double timeInitial = solverParams->get("Initial Time", 0.0);
+  if (std::abs(currentTime - timeInitial) > 1.0e-12*std::max(std::abs(currentTime), std::abs(timeInitial))){
+    char timeError[251];
+    sprintf(timeError, "Error, Incompatible times:\nPrevious restart final time is %e, while initial time is %e.\n",currentTime,timeInitial);
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(true,timeError);
   }
   if(analysisHasMultiphysics){
     if(peridigmComm->MyPID() == 0){
-- 
2.43.0


From 951d9c3d97bc6cae4e676db47b0ac1fc12e130e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:39 +0000
Subject: [PATCH 23/37] fix: turn the unrotated frame in the direction of the
 spin

The rotation update of the hypoelastic correspondence models added the
second-order term of the exponential map with the wrong sign, so the
updated rotation was not orthogonal for a finite turn per step.
---
 src/materials/correspondence.cxx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/materials/correspondence.cxx b/src/materials/correspondence.cxx
index 2588ba0..f845b7f 100644
--- a/src/materials/correspondence.cxx
+++ b/src/materials/correspondence.cxx
@@ -1134,10 +1134,10 @@ int computeUnrotatedRateOfDeformationAndRotationTensor
     // Avoid a potential divide-by-zero
     if( OmegaSq > 1.e-30){
 
-      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
       //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
       scaleFactor1 = sin(dt*Omega) / Omega;
-      scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+      scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
       MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
       *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
       *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -2318,10 +2318,10 @@ int computeNodeLevelUnrotatedRateOfDeformationAndRotationTensor
       // Avoid a potential divide-by-zero
       if(OmegaSq > 1.e-30){
 
-        // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+        // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
         //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
         scaleFactor1 = sin(dt*Omega) / Omega;
-        scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+        scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
         MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
         *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
         *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -2661,10 +2661,10 @@ int computeBondLevelUnrotatedRateOfDeformationAndRotationTensor
         // Avoid a potential divide-by-zero
         if(OmegaSq > 1.e-30){
 
-          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
           //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
           scaleFactor1 = sin(dt*Omega) / Omega;
-          scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+          scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
           MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
           *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
           *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -3562,10 +3562,10 @@ int computeNodeLevelUnrotatedRateOfDeformationAndRotationTensor
     // Avoid a potential divide-by-zero
     if( OmegaSq > 1.e-30){
 
-      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
       //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
       scaleFactor1 = sin(dt*Omega) / Omega;
-      scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+      scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
       MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
       *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
       *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -4017,10 +4017,10 @@ int computeBondLevelUnrotatedRateOfDeformationAndRotationTensor
         // Avoid a potential divide-by-zero
         if(OmegaSq > 1.e-30){
 
-          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
           //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
           scaleFactor1 = sin(dt*Omega) / Omega;
-          scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+          scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
           MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
           *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
           *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
-- 
2.43.0


From 745f4fa31b5b897e8c12d958c5ea8608a7c22e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:46 +0000
Subject: [PATCH 24/37] fix: write the stress triaxiality of elastic steps too

The power-law hardening hypoelastic model computed the triaxiality only
when the trial stress was beyond the yield surface. In elastic steps the
field kept the value of an old step.
---
 src/materials/isotropic_hardening_correspondence.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/isotropic_hardening_correspondence.cxx b/src/materials/isotropic_hardening_correspondence.cxx
index fd28185..ffc80c9 100644
--- a/src/materials/isotropic_hardening_correspondence.cxx
+++ b/src/materials/isotropic_hardening_correspondence.cxx
@@ -605,10 +605,10 @@ void updateElasticIsotropicPowerlawHardeningPlasticCauchyStress
           // The step is elastic
           *eqpsNP1 = *eqpsN;
         }
+      }
 
       // compute stress triaxiality
       *triaxiality = (*(stressNP1+0) + *(stressNP1+4) + *(stressNP1+8)) / (3.0 * std::max(1.0e-20,*vmStress));
-      }
     }
   }
 }
-- 
2.43.0


From 7ba93446addf75bba4b64ce9919b409516a302ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:34 +0000
Subject: [PATCH 25/37] fix: do not scale a stress inside the yield surface up
 to it

The bond-level power-law hardening update returned the stress to the
updated yield surface also when the trial stress was inside of it.
---
 src/materials/isotropic_hardening_correspondence.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/materials/isotropic_hardening_correspondence.cxx b/src/materials/isotropic_hardening_correspondence.cxx
index ffc80c9..92c8d44 100644
--- a/src/materials/isotropic_hardening_correspondence.cxx
+++ b/src/materials/isotropic_hardening_correspondence.cxx
@@ -982,7 +982,8 @@ void updateBondLevelElasticIsotropicPowerlawHardeningPlasticCauchyStress
           // Now return the stress to the yield surface
 
           //multiply the trial deviatoric stress
-          tempScalar = sqrt(2.0/3.0)*yieldFunctionVal/deviatoricStressMagnitudeNP1;
+          //(a trial stress inside the updated surface is not scaled up to it)
+          tempScalar = std::min(1.0, sqrt(2.0/3.0)*yieldFunctionVal/deviatoricStressMagnitudeNP1);
 
           // Return the deviatoric stress to the yield surface
           for(int i = 0; i < 9; i++){
-- 
2.43.0


From 2f8361b316571ec077c56c49f314601a3752d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:21 +0000
Subject: [PATCH 26/37] fix: let a data manager hold only stateless or only
 two-step fields

A block whose fields are all stateless, or all two-step, has no data of the
other kind.  Looking a field up or sending values to ghost points then used
a null pointer.
---
 src/core/Peridigm_DataManager.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/Peridigm_DataManager.cpp b/src/core/Peridigm_DataManager.cpp
index 9da5bd9..9d87536 100644
--- a/src/core/Peridigm_DataManager.cpp
+++ b/src/core/Peridigm_DataManager.cpp
@@ -298,6 +298,10 @@ void PeridigmNS::DataManager::scatterToGhosts()
     else if(iState == 2)
       state = stateNP1;
 
+    // There is no state if there are no fields of this kind
+    if(state.is_null())
+      continue;
+
     for(int iMultiVector = 0 ; iMultiVector < state->getMaxPointDataElementSize() ; ++iMultiVector){
 
       PeridigmField::Length length;      
@@ -516,13 +520,13 @@ bool PeridigmNS::DataManager::hasData(int fieldId, PeridigmField::Step step)
 
   // Check for data in State objects
   if(step == PeridigmField::STEP_NONE){
-    hasData = stateNONE->hasData(fieldId);
+    hasData = !stateNONE.is_null() && stateNONE->hasData(fieldId);
   }
   else if(step == PeridigmField::STEP_N){
-    hasData = stateN->hasData(fieldId);
+    hasData = !stateN.is_null() && stateN->hasData(fieldId);
   }
   else if(step == PeridigmField::STEP_NP1){
-    hasData = stateNP1->hasData(fieldId);
+    hasData = !stateNP1.is_null() && stateNP1->hasData(fieldId);
   }
   else{
     TEUCHOS_TEST_FOR_EXCEPTION(false, Teuchos::RangeError,
@@ -547,13 +551,16 @@ Teuchos::RCP<Epetra_Vector> PeridigmNS::DataManager::getData(int fieldId, Peridi
   }
   else{
     if(step == PeridigmField::STEP_NONE){
-      data = stateNONE->getData(fieldId);
+      if(!stateNONE.is_null())
+        data = stateNONE->getData(fieldId);
     }
     else if(step == PeridigmField::STEP_N){
-      data = stateN->getData(fieldId);
+      if(!stateN.is_null())
+        data = stateN->getData(fieldId);
     }
     else if(step == PeridigmField::STEP_NP1){
-      data = stateNP1->getData(fieldId);
+      if(!stateNP1.is_null())
+        data = stateNP1->getData(fieldId);
     }
     else{
       TEUCHOS_TEST_FOR_EXCEPTION(false, Teuchos::RangeError, 
-- 
2.43.0


From 1c83de123381732dcc7dc95b8c5691de6dd20581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:21 +0000
Subject: [PATCH 27/37] fix: refuse a field number beyond the stored fields

State::getData() read past the end of its table when a field was defined
after the state was allocated.  It now returns a null pointer, which
DataManager::getData() reports as an error.
---
 src/core/Peridigm_State.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Peridigm_State.cpp b/src/core/Peridigm_State.cpp
index 74d6cc6..86c65e9 100644
--- a/src/core/Peridigm_State.cpp
+++ b/src/core/Peridigm_State.cpp
@@ -126,6 +126,8 @@ Teuchos::RCP<Epetra_Vector> PeridigmNS::State::getData(int fieldId)
   // Indexing into the map with fieldToDataMap[fieldId] was shown to be a bottleneck,
   // particularly with regard to construction of the tangent matrix in implicit calculations.
   // To improve performance, a (redundant but faster) std::vector fieldToDataVector was added.
+  if(fieldId < 0 || fieldId >= numFieldIds)
+    return Teuchos::RCP<Epetra_Vector>();
   return fieldIdToDataVector[fieldId];
 }
 
-- 
2.43.0


From cf8c84925885269b85ff2b86733a396cbf310afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:21 +0000
Subject: [PATCH 28/37] fix: refuse node sets with invalid node numbers

A node number beyond the mesh was dropped without a message.  The rest of a
line of a node set file was dropped at the first word that is not a number.
Comments at the end of a line are still allowed.
---
 .../Peridigm_BoundaryAndInitialConditionManager.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
index 1bc3ef1..c863bd4 100644
--- a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
+++ b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
@@ -205,6 +205,7 @@ void PeridigmNS::BoundaryAndInitialConditionManager::createRankDeficientBC()
 void PeridigmNS::BoundaryAndInitialConditionManager::initializeNodeSets(Teuchos::RCP<Discretization> discretization)
 {
   nodeSets = Teuchos::rcp(new map< string, vector<int> >());
+  const int maxNodeID = discretization->getGlobalOwnedMap(1)->MaxAllGID();
 
   // Load node sets defined in the input deck into the nodeSets container
   for(Teuchos::ParameterList::ConstIterator it = params.begin() ; it != params.end() ; it++){
@@ -245,6 +246,12 @@ void PeridigmNS::BoundaryAndInitialConditionManager::initializeNodeSets(Teuchos:
             copy(istream_iterator<int>(iss),
                  istream_iterator<int>(),
                  back_inserter<vector<int> >(nodeNumbers));
+            // Anything left on the line that is not a comment is not a node number
+            iss.clear();
+            string remainder;
+            iss >> remainder;
+            TEUCHOS_TEST_FOR_EXCEPT_MSG(remainder.size() > 0 && remainder[0] != '#' && remainder[0] != '/' && remainder[0] != '*',
+                                        "**** Error:  Invalid node number detected in nodeset file: " + str + "\n");
             for(unsigned int i=0 ; i<nodeNumbers.size() ; ++i){
               // Convert from 1-based node numbering (Exodus II) to 0-based node numbering (Epetra and all the rest of Peridigm)
               TEUCHOS_TEST_FOR_EXCEPT_MSG(nodeNumbers[i] < 1, "**** Error:  Node number 0 detected in nodeset file; node numbering must begin with 1.\n");
@@ -254,6 +261,9 @@ void PeridigmNS::BoundaryAndInitialConditionManager::initializeNodeSets(Teuchos:
         }
         inFile.close();
       }
+
+      for(unsigned int i=0 ; i<nodeList.size() ; ++i)
+        TEUCHOS_TEST_FOR_EXCEPT_MSG(nodeList[i] > maxNodeID, "**** Error:  Node set " + name + " contains a node number that is not in the mesh.\n");
     }
   }
 
-- 
2.43.0


From 9338e3ab41291b876334c38c0bc05fd70ca078e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:21 +0000
Subject: [PATCH 29/37] fix: refuse mesh lines with characters after the volume

The reader stopped at the first character that is not part of a number, so a
volume written as 1.0D-3 was read as 1.0.  Comments at the end of a line are
still allowed.
---
 .../discretization/Peridigm_TextFileDiscretization.cpp   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index ec60195..77cbdc6 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -148,10 +148,15 @@ QUICKGRID::Data PeridigmNS::TextFileDiscretization::getDecomp(const string& text
         copy(istream_iterator<double>(iss),
              istream_iterator<double>(),
              back_inserter<vector<double> >(data));
+        // Anything that follows the numbers must be a comment
+        iss.clear();
+        string remainder;
+        iss >> remainder;
+        bool validRemainder = (remainder.size() == 0 || remainder[0] == '#' || remainder[0] == '/' || remainder[0] == '*');
         // Check for obvious problems with the data
-        if(data.size() != 5){
+        if(data.size() != 5 || !validRemainder){
           string msg = "\n**** Error parsing text file, invalid line: " + str + "\n";
-          TEUCHOS_TEST_FOR_TERMINATION(data.size() != 5, msg);
+          TEUCHOS_TEST_FOR_TERMINATION(data.size() != 5 || !validRemainder, msg);
         }
         // Store the coordinates, block id, and volumes
         coordinates.push_back(data[0]);
-- 
2.43.0


From c7dd38156e059fb910a6636ca344bc54aa7fe19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:30 +0000
Subject: [PATCH 30/37] fix: do not hang when contact has no interactions

The list of interactions was searched past its end when it was empty.
---
 src/core/Peridigm_ContactManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm_ContactManager.cpp b/src/core/Peridigm_ContactManager.cpp
index 6754978..94d4216 100644
--- a/src/core/Peridigm_ContactManager.cpp
+++ b/src/core/Peridigm_ContactManager.cpp
@@ -203,7 +203,8 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
   // Elliminate duplicates and load the interactions into a vector
   std::set< std::tuple<int, int, string> >::iterator it, nextIt;
   nextIt = contactInteractionSet.begin();
-  nextIt++;
+  if( nextIt != contactInteractionSet.end() )
+    nextIt++;
   for(it = contactInteractionSet.begin() ; it != contactInteractionSet.end() ; it++){
     // If a block pair has multiple contact definitions, the final definition is the one that will be used
     bool duplicate = false;
-- 
2.43.0


From d7497ce858c8ba2693e09d6a8e3386a74b458053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:30 +0000
Subject: [PATCH 31/37] fix: refuse contact interactions of unknown blocks or
 models

An interaction that names a block that is not in the mesh was ignored, and
one that names an unknown contact model used the first model.  A contact
section without any model ended in a segmentation fault.
---
 src/core/Peridigm_ContactManager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/Peridigm_ContactManager.cpp b/src/core/Peridigm_ContactManager.cpp
index 94d4216..af429b0 100644
--- a/src/core/Peridigm_ContactManager.cpp
+++ b/src/core/Peridigm_ContactManager.cpp
@@ -188,6 +188,10 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
   }
 
   // Parse the individually-defined interactions
+  std::set<int> blockIds;
+  vector<string> meshBlockNames = disc->getBlockNames();
+  for(unsigned int i=0 ; i<meshBlockNames.size() ; ++i)
+    blockIds.insert( disc->blockNameToBlockId(meshBlockNames[i]) );
   for(Teuchos::ParameterList::ConstIterator it = interactionParams.begin() ; it != interactionParams.end() ; it++){
     const string& name = it->first;
     if(name != "General Contact" && name != "Self Contact" && interactionParams.isSublist(name)){
@@ -195,6 +199,8 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
       int blockId_1 = disc->blockNameToBlockId( interaction.get<string>("First Block") );
       int blockId_2 = disc->blockNameToBlockId( interaction.get<string>("Second Block") );
       string contactModelName = interaction.get<string>("Contact Model");
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(blockIds.find(blockId_1) == blockIds.end() || blockIds.find(blockId_2) == blockIds.end(),
+                                  "\n**** Error, contact interaction " + name + " names a block that is not in the mesh.\n");
       std::tuple<int, int, string> interactionTuple(blockId_1, blockId_2, contactModelName);
       contactInteractionSet.insert(interactionTuple);
     }
@@ -206,6 +212,8 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
   if( nextIt != contactInteractionSet.end() )
     nextIt++;
   for(it = contactInteractionSet.begin() ; it != contactInteractionSet.end() ; it++){
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(!contactParams.sublist("Models").isSublist(std::get<2>(*it)),
+                                "\n**** Error, contact interaction names an unknown contact model: " + std::get<2>(*it) + "\n");
     // If a block pair has multiple contact definitions, the final definition is the one that will be used
     bool duplicate = false;
     if( nextIt != contactInteractionSet.end() && std::get<0>(*it) == std::get<0>(*nextIt) && std::get<1>(*it) == std::get<1>(*nextIt) )
@@ -245,6 +253,7 @@ void PeridigmNS::ContactManager::initialize(Teuchos::RCP<const Epetra_BlockMap>
     // For the initial implementation, assume that there is only one contact model
     // \todo Refactor contact!
     Teuchos::ParameterList contactModelParams = params.sublist("Models", true);
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(contactModelParams.begin() == contactModelParams.end(), "\n**** Error, no contact model defined.\n");
     Teuchos::ParameterList contactParams = contactModelParams.sublist( contactModelParams.begin()->first );
     TEUCHOS_TEST_FOR_EXCEPT_MSG(contactParams.isParameter("Horizon") , "\n**** Error, Horizon is an invalid contact model parameter.\n");
     contactParams.set("Horizon", blockHorizon);
-- 
2.43.0


From 90feca1056f99c80b745f9eb2934023e50f67e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:30 +0000
Subject: [PATCH 32/37] fix: stop when a restart file is missing or does not
 fit the mesh

Reading a restart vector that is missing or has another length left the
vector pointer unset or pointing at the previous vector. The run then
crashed, hung on some processes, or continued with the values of another
field. All processes now end with an error that names the file.
---
 src/core/Peridigm.cpp       | 40 ++++++++++++++++++++++---------------
 src/core/Peridigm_State.cpp | 14 ++++++++++---
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 6250005..beb75f2 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4538,10 +4538,18 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
   }
 }
 
+// Reads one vector of the restart files; a file that is missing or does not fit the map is an error
+static void readRestartVector(const char* fileName, const Epetra_BlockMap& map, Epetra_Vector*& vec){
+  int localErr = std::abs(EpetraExt::MatrixMarketFileToVector(fileName, map, vec));
+  int err(0);
+  map.Comm().MaxAll(&localErr, &err, 1);
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(err != 0, "Error: restart file " << fileName << " is missing or does not match the discretization.\n");
+}
+
 void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solverParams){
   double* UpdatePtr;
   double* oldPtr;
-  Epetra_Vector * vectorUpdate;
+  Epetra_Vector * vectorUpdate(0);
   std::string trash, data;
   //read global current time
   ifstream outputFile;
@@ -4572,63 +4580,63 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     }
   }else{
     //read block ID
-    EpetraExt::MatrixMarketFileToVector(restartFiles["blockIDs"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["blockIDs"].c_str(), *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     blockIDs->ExtractView(&oldPtr);
     blas.COPY(blockIDs->MyLength(), UpdatePtr, oldPtr);
     //read horizon for each point
-    EpetraExt::MatrixMarketFileToVector(restartFiles["horizon"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["horizon"].c_str(), *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     horizon->ExtractView(&oldPtr);
     blas.COPY(horizon->MyLength(), UpdatePtr, oldPtr);
     //read cell volume
-    EpetraExt::MatrixMarketFileToVector(restartFiles["volume"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["volume"].c_str(), *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     volume->ExtractView(&oldPtr);
     blas.COPY(volume->MyLength(), UpdatePtr, oldPtr);
     //read density
-    EpetraExt::MatrixMarketFileToVector(restartFiles["density"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["density"].c_str(), *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     density->ExtractView(&oldPtr);
     blas.COPY(density->MyLength(), UpdatePtr, oldPtr);
     //read change in temperature
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaTemperature"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["deltaTemperature"].c_str(), *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     deltaTemperature->ExtractView(&oldPtr);
     blas.COPY(deltaTemperature->MyLength(), UpdatePtr, oldPtr);
   }
     //read initial positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["x"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["x"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     x->ExtractView(&oldPtr);
     blas.COPY(x->MyLength(), UpdatePtr, oldPtr);
     //read displacement
-    EpetraExt::MatrixMarketFileToVector(restartFiles["u"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["u"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     u->ExtractView(&oldPtr);
     blas.COPY(u->MyLength(), UpdatePtr, oldPtr);
     //read current positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["y"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["y"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     y->ExtractView(&oldPtr);
     blas.COPY(y->MyLength(), UpdatePtr, oldPtr);
     //read velocities
-    EpetraExt::MatrixMarketFileToVector(restartFiles["v"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["v"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     v->ExtractView(&oldPtr);
     blas.COPY(v->MyLength(), UpdatePtr, oldPtr);
     //read accelerations
-    EpetraExt::MatrixMarketFileToVector(restartFiles["a"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["a"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     a->ExtractView(&oldPtr);
     blas.COPY(a->MyLength(), UpdatePtr, oldPtr);
     //read force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["force"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["force"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     force->ExtractView(&oldPtr);
     blas.COPY(force->MyLength(), UpdatePtr, oldPtr);
     //read contact force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["contactForce"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["contactForce"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     contactForce->ExtractView(&oldPtr);
     blas.COPY(contactForce->MyLength(), UpdatePtr, oldPtr);
@@ -4636,17 +4644,17 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     UpdatePtr = 0;
     oldPtr = 0;
     //read external force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["externalForce"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["externalForce"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     externalForce->ExtractView(&oldPtr);
     blas.COPY(externalForce->MyLength(), UpdatePtr, oldPtr);
     //read deltaU (increment in displacement)
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaU"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["deltaU"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     deltaU->ExtractView(&oldPtr);
     blas.COPY(deltaU->MyLength(), UpdatePtr, oldPtr);
     //read scratch
-    EpetraExt::MatrixMarketFileToVector(restartFiles["scratch"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["scratch"].c_str(), *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     scratch->ExtractView(&oldPtr);
     blas.COPY(scratch->MyLength(), UpdatePtr, oldPtr);
diff --git a/src/core/Peridigm_State.cpp b/src/core/Peridigm_State.cpp
index 86c65e9..44ed4d2 100644
--- a/src/core/Peridigm_State.cpp
+++ b/src/core/Peridigm_State.cpp
@@ -47,6 +47,7 @@
 
 #include "Peridigm_State.hpp"
 #include "Peridigm_Field.hpp"
+#include <Epetra_Comm.h>
 #include <Epetra_Import.h>
 #include <Teuchos_Assert.hpp>
 #include <sstream>
@@ -190,19 +191,26 @@ void PeridigmNS::State::SetRestartFiles( std::string stateName, std::string bloc
 void PeridigmNS::State::readStateData(Teuchos::RCP<PeridigmNS::State> source,  std::string stateName,  std::string blockName, char const * path)
 {
   char VectorName[100];
-  Epetra_MultiVector * MultiVectorUpdate;
+  Epetra_MultiVector * MultiVectorUpdate(0);
+  int localErr(0), err(0);
   SetRestartFiles(stateName, blockName, path);
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
       sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
-      EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate);
+      localErr = std::abs(EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate));
+      pointData[i]->Comm().MaxAll(&localErr, &err, 1);
+      TEUCHOS_TEST_FOR_EXCEPTION(err != 0, std::runtime_error,
+                         "PeridigmNS::State::readStateData() restart file " << restartStateFiles[VectorName] << " is missing or does not match the discretization.\n");
       copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *pointData[i] );
     }
   }
 
   if(!bondData.is_null()){
     sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
-    EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate);
+    localErr = std::abs(EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate));
+    bondData->Comm().MaxAll(&localErr, &err, 1);
+    TEUCHOS_TEST_FOR_EXCEPTION(err != 0, std::runtime_error,
+                       "PeridigmNS::State::readStateData() restart file " << restartStateFiles[VectorName] << " is missing or does not match the discretization.\n");
     copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *bondData );
   }
 }
-- 
2.43.0


From 2ac6fe7bd83faf0c4478e7fb025878937e98439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:13 +0000
Subject: [PATCH 33/37] fix: keep the flag of neglected points with several
 blocks or processors

The Von Mises and Johnson Cook damage models set the flag to -1 on all
copies of a point. The copies are added up when blocks and processors
are synchronized, so a flag of +1 was lost as soon as one other block or
processor held a copy. Only the owner sets a value now.
---
 src/damage/Peridigm_JohnsonCookDamageModel.cpp    | 5 ++++-
 src/damage/Peridigm_VonMisesStressDamageModel.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/damage/Peridigm_JohnsonCookDamageModel.cpp b/src/damage/Peridigm_JohnsonCookDamageModel.cpp
index a2e1c3b..0b6a315 100644
--- a/src/damage/Peridigm_JohnsonCookDamageModel.cpp
+++ b/src/damage/Peridigm_JohnsonCookDamageModel.cpp
@@ -175,7 +175,9 @@ PeridigmNS::JohnsonCookDamageModel::computeDamage(const double dt,
   // Zero out the bond damage to compute intact weighted volume (to
   // eventually evaluate damage of material points)
   dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)->PutScalar(0.0);
-  dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_NP1)->PutScalar(-1.0);
+  // The values of all copies of a point are added up when the blocks and
+  // processors are synchronized, so only the owner of a point sets a value
+  dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_NP1)->PutScalar(0.0);
 
   double *bondDamage, *flyingPointFlag;
   dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_NP1)->ExtractView(&flyingPointFlag);
@@ -198,6 +200,7 @@ PeridigmNS::JohnsonCookDamageModel::computeDamage(const double dt,
         ++flyingPointFlag, ++delta, ++undamagedWeightedVolume, coord+=3, 
         ++brokenBondVolumeAveragedN, ++brokenBondVolumeAveragedNP1)
   {
+    *flyingPointFlag = -1.0;
     if(*flyingPointFlag < 0.0){
       // damage = volume-average of broken bonds
       *damageNP1 = 0.0;
diff --git a/src/damage/Peridigm_VonMisesStressDamageModel.cpp b/src/damage/Peridigm_VonMisesStressDamageModel.cpp
index 8df84f0..e86ac34 100644
--- a/src/damage/Peridigm_VonMisesStressDamageModel.cpp
+++ b/src/damage/Peridigm_VonMisesStressDamageModel.cpp
@@ -157,7 +157,9 @@ PeridigmNS::VonMisesStressDamageModel::computeDamage(const double dt,
   // Zero out the bond damage to compute intact weighted volume (to
   // eventually evaluate damage of material points)
   dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)->PutScalar(0.0);
-  dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_NP1)->PutScalar(-1.0);
+  // The values of all copies of a point are added up when the blocks and
+  // processors are synchronized, so only the owner of a point sets a value
+  dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_NP1)->PutScalar(0.0);
 
   double *bondDamage, *flyingPointFlag;
   dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_NP1)->ExtractView(&flyingPointFlag);
@@ -170,6 +172,7 @@ PeridigmNS::VonMisesStressDamageModel::computeDamage(const double dt,
       ++delta, ++undamagedWeightedVolume, coord+=3, 
       ++brokenBondVolumeAveragedN, ++brokenBondVolumeAveragedNP1)
   {
+    *flyingPointFlag = -1.0;
     *brokenBondVolumeAveragedNP1 = 0.0;
 
     // Loop over the neighbors and compute bond damage
-- 
2.43.0


From f4cc7439e7225b116669782553cd356d26f043d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:13 +0000
Subject: [PATCH 34/37] fix: set the undamaged weighted volume before the first
 damage evaluation

The damage models of the hypoelastic correspondence materials divide by
the undamaged weighted volume. It was still zero in the first
evaluation, so the initial damage was written as NaN.
---
 ...Peridigm_HypoelasticCorrespondenceMaterial.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/materials/Peridigm_HypoelasticCorrespondenceMaterial.cpp b/src/materials/Peridigm_HypoelasticCorrespondenceMaterial.cpp
index 87434be..5a19da3 100644
--- a/src/materials/Peridigm_HypoelasticCorrespondenceMaterial.cpp
+++ b/src/materials/Peridigm_HypoelasticCorrespondenceMaterial.cpp
@@ -475,6 +475,21 @@ PeridigmNS::HypoelasticCorrespondenceMaterial::initialize(const double dt,
   dataManager.getData(m_jacobianDeterminantFieldId, PeridigmField::STEP_N)->PutScalar(1.0);
   dataManager.getData(m_jacobianDeterminantFieldId, PeridigmField::STEP_NP1)->PutScalar(1.0);
 
+  // The damage models divide by the undamaged weighted volume before precompute() is called for the first time
+  double *horizon, *volume, *coordinates, *undamagedWeightedVolume, *jacobianDeterminant;
+  dataManager.getData(m_horizonFieldId, PeridigmField::STEP_NONE)->ExtractView(&horizon);
+  dataManager.getData(m_volumeFieldId, PeridigmField::STEP_NONE)->ExtractView(&volume);
+  dataManager.getData(m_coordinatesFieldId, PeridigmField::STEP_NP1)->ExtractView(&coordinates);
+  dataManager.getData(m_undamagedWeightedVolumeFieldId, PeridigmField::STEP_NONE)->ExtractView(&undamagedWeightedVolume);
+  dataManager.getData(m_jacobianDeterminantFieldId, PeridigmField::STEP_N)->ExtractView(&jacobianDeterminant);
+  CORRESPONDENCE::computeUndamagedWeightedVolume(volume,
+                                                 undamagedWeightedVolume,
+                                                 jacobianDeterminant,
+                                                 horizon,
+                                                 coordinates,
+                                                 neighborhoodList,
+                                                 numOwnedPoints);
+
   dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_N)->PutScalar(-1.0);
   dataManager.getData(m_flyingPointFlagFieldId, PeridigmField::STEP_NP1)->PutScalar(-1.0);
   dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N)->PutScalar(0.0);
-- 
2.43.0


From bce4b335f3b66e49dcf06b37b676b96f08b59ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:13 +0000
Subject: [PATCH 35/37] fix: load data in a run that starts at time -1

The data loader marked "nothing loaded yet" with time -1, so a run that
starts at this time kept zeros.
---
 src/core/Peridigm_DataLoader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm_DataLoader.cpp b/src/core/Peridigm_DataLoader.cpp
index 6083b29..f40fd55 100644
--- a/src/core/Peridigm_DataLoader.cpp
+++ b/src/core/Peridigm_DataLoader.cpp
@@ -49,6 +49,7 @@
 #include <Epetra_MpiComm.h>
 #include "Teuchos_Assert.hpp"
 #include <exodusII.h>
+#include <limits>
 #include <sstream>
 #include <iomanip>
 #include <vector>
@@ -58,7 +59,8 @@
 PeridigmNS::DataLoader::DataLoader(const Teuchos::ParameterList& contactParams,
                                    Teuchos::RCP<const Epetra_BlockMap> epetraMap)
   : fileName_("none"), fieldName_("none"), fieldId_(-1), exodusName_("none"), exodusVariableIndex_(-1),
-    numRanks_(-1), myRank_(-1), time_(-1.0), time_1_(-1.0), time_2_(-1.0)
+    numRanks_(-1), myRank_(-1),
+    time_(std::numeric_limits<double>::max()), time_1_(std::numeric_limits<double>::max()), time_2_(std::numeric_limits<double>::max())
 {
   fileName_ = contactParams.get<std::string>("File Name");
   fieldName_ = contactParams.get<std::string>("Field Name");
-- 
2.43.0


From 92ef31005cf5926a89ca19520dd1040af91cfd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:25:37 +0000
Subject: [PATCH 36/37] fix: keep bonds to points exactly one horizon away on
 another processor

A point on the cut between two processors can belong to either side. The
points within one horizon of it were searched with exact comparisons, so
a point exactly one horizon away was not sent and the bond was missing.
---
 src/io/pdneigh/NeighborhoodList.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/pdneigh/NeighborhoodList.cxx b/src/io/pdneigh/NeighborhoodList.cxx
index d33d674..9e286c4 100644
--- a/src/io/pdneigh/NeighborhoodList.cxx
+++ b/src/io/pdneigh/NeighborhoodList.cxx
@@ -389,6 +389,10 @@ void NeighborhoodList::createAndAddNeighborhood(){
   double maxHorizon = 0.0;
   horizons->Comm().MaxAll(&maxLocalHorizon, &maxHorizon, 1);
 
+  // A neighbor may be exactly one horizon away and lie exactly on the cut between two
+  // processors, so the points are sent to a slightly larger distance
+  maxHorizon *= 1.0 + 1.0e-8;
+
 //  shared_ptr< std::set<int> > frameSet = constructParallelDecompositionFrameSet();
   shared_ptr< std::set<int> > frameSet = UTILITIES::constructFrameSet(num_owned_points,owned_x,maxHorizon);
 
-- 
2.43.0


From ac775870101581b48af7bcfe698a17545b3ac348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:54:00 +0000
Subject: [PATCH 37/37] fix: keep stateless data in the restart files

The von Mises stress of the bonds is stored as stateless data.
The stress driven damage models read it at the start of the next step.
It was left out of the restart files, so a continued run saw no stress
in its first step and broke fewer bonds than the uninterrupted run.
---
 src/core/Peridigm_DataManager.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm_DataManager.hpp b/src/core/Peridigm_DataManager.hpp
index b324604..e214662 100644
--- a/src/core/Peridigm_DataManager.hpp
+++ b/src/core/Peridigm_DataManager.hpp
@@ -174,12 +174,15 @@ public:
     stateN.swap(stateNP1);
   }
   void writeBlocktoDisk(std::string blockName,char const * path){
-    // StateNone is unaffected by restart so only StateN and StateNP1 are written
+    // StateNone is written as well because some stateless fields are carried from one step to the next
+    if(!stateNONE.is_null())
+      getStateNONE()->writeStateData(getStateNONE(),"StateNone",blockName,path);
     getStateN()->writeStateData(getStateN(),"StateN",blockName,path);
     getStateNP1()->writeStateData(getStateNP1(),"StateNP1",blockName,path);
   }
   void readBlockfromDisk(std::string blockName,char const * path){
-    // StateNone is unaffected by restart so only StateN and StateNP1 are red
+    if(!stateNONE.is_null())
+      getStateNONE()->readStateData(getStateNONE(),"StateNone",blockName,path);
     getStateN()->readStateData(getStateN(),"StateN",blockName,path);
     getStateNP1()->readStateData(getStateNP1(),"StateNP1",blockName,path);
   }
-- 
2.43.0

