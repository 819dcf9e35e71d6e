From c827edcdfd6f827f116a70cf3e7f5e1999540ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:28 +0000
Subject: [PATCH 01/27] fix: exchange neighbour candidates within the largest
 horizon of all processors

The parallel neighbour search offered each point only to processors within
that point's own horizon. With unequal horizons a point with a large horizon
missed neighbours with a small horizon across a processor boundary, so the
results depended on the number of processors.
---
 src/io/pdneigh/NeighborhoodList.cxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/io/pdneigh/NeighborhoodList.cxx b/src/io/pdneigh/NeighborhoodList.cxx
index 0ebf8aa..207e826 100644
--- a/src/io/pdneigh/NeighborhoodList.cxx
+++ b/src/io/pdneigh/NeighborhoodList.cxx
@@ -378,12 +378,14 @@ void NeighborhoodList::createAndAddNeighborhood(){
 
   enum {COMM_CREATE=9,COMM_DO=10};
 
-  // Find the maximum horizon and use this to create the frame set
-  double maxHorizon = 0.0;
+  // Find the maximum horizon over all processors and use this to create the frame set
+  double localMaxHorizon = 0.0;
   for(int i=0 ; i<horizons->MyLength() ; ++i){
-    if((*horizons)[i] > maxHorizon)
-      maxHorizon = (*horizons)[i];
+    if((*horizons)[i] > localMaxHorizon)
+      localMaxHorizon = (*horizons)[i];
   }
+  double maxHorizon = 0.0;
+  epetraComm->MaxAll(&localMaxHorizon, &maxHorizon, 1);
 
 //  shared_ptr< std::set<int> > frameSet = constructParallelDecompositionFrameSet();
   shared_ptr< std::set<int> > frameSet = UTILITIES::constructFrameSet(num_owned_points,owned_x,maxHorizon);
@@ -428,8 +430,6 @@ void NeighborhoodList::createAndAddNeighborhood(){
     int numProcsPoint;
     std::set<int>::iterator myPointsIter = frameSet->begin();
     double *x = owned_x.get();
-    double *horizon;
-    horizons->ExtractView(&horizon);
 
     for(;myPointsIter!=frameSet->end();myPointsIter++){
 
@@ -438,8 +438,8 @@ void NeighborhoodList::createAndAddNeighborhood(){
        */
       int id = *myPointsIter;
       const double *xP = x+dimension*id;
-            const double *horizonP = horizon+id;
-      PointCenteredBoundingBox bb(xP,*horizonP);
+      // A point may be needed by any off-processor point within the largest horizon
+      PointCenteredBoundingBox bb(xP,maxHorizon);
 //      if(1==rank){
 //        std::cout << "localId, x,y,z = " << id << ", " << *xP << ", " << *(xP+1) << ", " << *(xP+2) << std::endl;
 //        std::cout << "xMin, xMax " << bb.get_xMin() << ", " << bb.get_xMax() << std::endl;
-- 
2.43.0


From 9ba11c16f52daa28718633cbb12b03f05db4c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:28 +0000
Subject: [PATCH 02/27] fix: count only the owner's value when synchronizing
 material fields

The synchronization summed ghost copies left by the previous
synchronization into the owner's value. With a Linear LPS Partial Volume
block next to a block of another material, dilatations were counted once per
ghost copy, which made the results depend on the partition.
---
 src/core/Peridigm_Block.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/Peridigm_Block.cpp b/src/core/Peridigm_Block.cpp
index 270ae90..dc42217 100644
--- a/src/core/Peridigm_Block.cpp
+++ b/src/core/Peridigm_Block.cpp
@@ -200,6 +200,18 @@ void PeridigmNS::DataManagerSynchronizer::synchronizeDataAfterPrecompute(Teuchos
   synchronize(blocks, fieldIdsToSychAfterPrecompute);
 }
 
+// Ghosts may hold copies left by an earlier synchronization; only the owner's value may contribute to the sum.
+// Note that owned points are listed ahead of ghosted points in the overlap maps.
+static void zeroGhostData(PeridigmNS::Block& block, int fieldId, PeridigmNS::PeridigmField::Step step)
+{
+  if(!block.hasData(fieldId, step))
+    return;
+  Teuchos::RCP<Epetra_Vector> data = block.getData(fieldId, step);
+  int numOwnedPoints = block.getNeighborhoodData()->NumOwnedPoints();
+  for(int i=numOwnedPoints*data->Map().ElementSize() ; i<data->MyLength() ; ++i)
+    (*data)[i] = 0.0;
+}
+
 void PeridigmNS::DataManagerSynchronizer::synchronize(Teuchos::RCP< std::vector<PeridigmNS::Block> > blocks,
                                                       std::vector<int> fieldIds)
 {
@@ -223,6 +235,7 @@ void PeridigmNS::DataManagerSynchronizer::synchronize(Teuchos::RCP< std::vector<
       scalarSum->PutScalar(0.0);
       for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++){
         scalarScratch->PutScalar(0.0);
+        zeroGhostData(*blockIt, fieldId, step);
         blockIt->exportData(scalarScratch, fieldId, step, Add);
         scalarSum->Update(1.0, *(scalarScratch), 1.0);
       }
@@ -234,6 +247,7 @@ void PeridigmNS::DataManagerSynchronizer::synchronize(Teuchos::RCP< std::vector<
       vectorSum->PutScalar(0.0);
       for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++){
         vectorScratch->PutScalar(0.0);
+        zeroGhostData(*blockIt, fieldId, step);
         blockIt->exportData(vectorScratch, fieldId, step, Add);
         vectorSum->Update(1.0, *(vectorScratch), 1.0);
       }
-- 
2.43.0


From fb37454f668ab92c7b5d47526d9b74ce5f5d0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:28 +0000
Subject: [PATCH 03/27] fix: abort the whole parallel job when one processor
 fails

An exception on a single processor led to MPI_Finalize() on that processor
while the others waited in a collective call, so the job hung.
---
 src/core/Peridigm_Main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Peridigm_Main.cpp b/src/core/Peridigm_Main.cpp
index 296d72a..3980c19 100644
--- a/src/core/Peridigm_Main.cpp
+++ b/src/core/Peridigm_Main.cpp
@@ -152,6 +152,9 @@ int main(int argc, char *argv[]) {
   PeridigmNS::Timer::self().printTimingData(cout);
 
 #ifdef HAVE_MPI
+  // The exception may have been thrown on this processor only, the others must not be left waiting
+  if(status != 0 && mpi_size > 1)
+    MPI_Abort(peridigmComm, status);
   MPI_Finalize() ;
 #endif
 
-- 
2.43.0


From 576610738b3a0991215b87343259fc20053f36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:14 +0000
Subject: [PATCH 04/27] fix: report the total momentum instead of the sum of
 block magnitudes

Global_Linear_Momentum and Global_Angular_Momentum added up the magnitude
of each block's momentum, so blocks moving in different directions did not
cancel.  Sum the vectors over all blocks first and report the magnitude of
the total.
---
 src/compute/Peridigm_Compute_Angular_Momentum.cpp | 7 ++++---
 src/compute/Peridigm_Compute_Linear_Momentum.cpp  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Angular_Momentum.cpp b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
index 34b2549..b1c0378 100644
--- a/src/compute/Peridigm_Compute_Angular_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
@@ -84,7 +84,7 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
 {
   int retval;
 
-  double globalAM = 0.0;
+  std::vector<double> globalAM(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity,  arm, volume, angular_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -152,13 +152,14 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
 
       epetraComm->SumAll(&localAngularMomentum[0], &globalAngularMomentum[0], 3);
 
-      globalAM += sqrt(globalAngularMomentum[0]*globalAngularMomentum[0] + globalAngularMomentum[1]*globalAngularMomentum[1] + globalAngularMomentum[2]*globalAngularMomentum[2]);
+      for(int i=0 ; i<3 ; ++i)
+        globalAM[i] += globalAngularMomentum[i];
     }
   }
 
   // Store global angular momentum
   if (!storeLocal)  
-    (*(blocks->begin()->getData(m_globalAngularMomentumFieldId, PeridigmField::STEP_NONE)))[0] = globalAM;
+    (*(blocks->begin()->getData(m_globalAngularMomentumFieldId, PeridigmField::STEP_NONE)))[0] = sqrt(globalAM[0]*globalAM[0] + globalAM[1]*globalAM[1] + globalAM[2]*globalAM[2]);
 
   return(0);
 
diff --git a/src/compute/Peridigm_Compute_Linear_Momentum.cpp b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
index ac45d86..10c9743 100644
--- a/src/compute/Peridigm_Compute_Linear_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
@@ -82,7 +82,7 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 {
   int retval;
 
-  double globalLM = 0.0;
+  std::vector<double> globalLM(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity, volume, linear_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -145,7 +145,8 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 
       epetraComm->SumAll(&localLinearMomentum[0], &globalLinearMomentum[0], 3);
 
-      globalLM += sqrt(globalLinearMomentum[0]*globalLinearMomentum[0] + globalLinearMomentum[1]*globalLinearMomentum[1] + globalLinearMomentum[2]*globalLinearMomentum[2]);
+      for(int i=0 ; i<3 ; ++i)
+        globalLM[i] += globalLinearMomentum[i];
     }
   }
 
@@ -163,7 +164,7 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
   // Store global energy in block (block globals are static, so only need to assign data to first block)
   if (!storeLocal){
     Teuchos::RCP<Epetra_Vector> data = blocks->begin()->getData(m_globalLinearMomentumFieldId, PeridigmField::STEP_NONE);
-    (*data)[0] = globalLM;
+    (*data)[0] = sqrt(globalLM[0]*globalLM[0] + globalLM[1]*globalLM[1] + globalLM[2]*globalLM[2]);
   }
 
   return(0);
-- 
2.43.0


From e14ca4cd6a3159155ddec7264a063caba6a5d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:52 +0000
Subject: [PATCH 05/27] fix: start the search for a maximum from the lowest
 representable value

DBL_MIN is the smallest positive number, so the maximum of data that is
negative everywhere was reported as about 2.2e-308.
---
 src/compute/Peridigm_Compute_Block_Data.cpp    | 2 +-
 src/compute/Peridigm_Compute_Node_Set_Data.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Block_Data.cpp b/src/compute/Peridigm_Compute_Block_Data.cpp
index 4eb3fa0..18c1608 100644
--- a/src/compute/Peridigm_Compute_Block_Data.cpp
+++ b/src/compute/Peridigm_Compute_Block_Data.cpp
@@ -132,7 +132,7 @@ int PeridigmNS::Compute_Block_Data::compute( Teuchos::RCP< std::vector<PeridigmN
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
diff --git a/src/compute/Peridigm_Compute_Node_Set_Data.cpp b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
index 8a2f155..c5f05d3 100644
--- a/src/compute/Peridigm_Compute_Node_Set_Data.cpp
+++ b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
@@ -149,7 +149,7 @@ int PeridigmNS::Compute_Node_Set_Data::compute( Teuchos::RCP< std::vector<Peridi
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
-- 
2.43.0


From 5310b164ccfc28240f35b841d042384590958534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:41 +0000
Subject: [PATCH 06/27] fix: keep all digits of a boundary condition value
 given as a number

A numeric Value was turned into a string with the default six significant
digits before being evaluated, so the condition was applied with a rounded
value.
---
 src/core/Peridigm_BoundaryCondition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index d1129f5..5ab2379 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -48,6 +48,7 @@
 #include "Peridigm_BoundaryCondition.hpp"
 #include "Peridigm.hpp"
 #include <cmath>
+#include <iomanip>
 #include <sstream>
 
 
@@ -71,7 +72,7 @@ PeridigmNS::BoundaryCondition::BoundaryCondition(const string & name_,
   coord = to_index(to_spatial_coordinate(bcParams));
   if(bcParams.isType<double>("Value")){
     std::stringstream ss;
-    ss << bcParams.get<double>("Value");
+    ss << std::setprecision(17) << bcParams.get<double>("Value");
     bcParams.set("Value", ss.str());
   }
   function = bcParams.get<string>("Value");
-- 
2.43.0


From 9996eda7c95d1e72d66525fd59f457b34f2e71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:15 +0000
Subject: [PATCH 07/27] fix: write Block_Id and Horizon when they are requested
 as output

The two fields were only stored in blocks whose material happens to use
them.  For all other blocks the variable was declared in the result file
but its values were never written.
---
 src/core/Peridigm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index e1c7884..b502cb2 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -460,6 +460,8 @@ PeridigmNS::Peridigm::Peridigm(const MPI_Comm& comm,
 
   // Force the allocation of space in all blocks for the following field data
   // \todo Replace this with a query to the requested output fields, which is why we're forcing this allocation.
+  auxiliaryFieldIds.push_back(blockIdFieldId);
+  auxiliaryFieldIds.push_back(horizonFieldId);
   auxiliaryFieldIds.push_back(modelCoordinatesFieldId);
   auxiliaryFieldIds.push_back(coordinatesFieldId);
   auxiliaryFieldIds.push_back(displacementFieldId);
-- 
2.43.0


From 8d0501dcba10333797f1772f7eb7edc793f1d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:51 +0000
Subject: [PATCH 08/27] fix: end with an error when a load or time step fails
 to converge

The quasi-static and implicit solvers printed "Aborting analysis", left
the load step loop and then finished normally, so the job returned success
and wrote restart data for a state it never reached.
---
 src/core/Peridigm.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index b502cb2..ad847bd 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -2894,9 +2894,7 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
 
           if(totalSolverFailure > maxTotalSolverFailure || solverFailureInThisStep > maxSolverFailureInOneStep){
             failedQS = true;
-            if(!switchToExplicit)
-              if(peridigmComm->MyPID() == 0)
-                cout << "\nError:  Aborting analysis.\n" << endl;
+            TEUCHOS_TEST_FOR_EXCEPT_MSG(!switchToExplicit, "\n**** Error:  Aborting analysis, nonlinear solver failed to converge.\n");
 
             break;
           }
@@ -2908,9 +2906,7 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
           convergenceHasFailedInThisStep = true;
         }
         else{
-          if(peridigmComm->MyPID() == 0)
-            cout << "\nError:  Aborting analysis.\n" << endl;
-          break;
+          TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "\n**** Error:  Aborting analysis, nonlinear solver failed to converge.\n");
         }
       }
     }
@@ -3243,9 +3239,7 @@ void PeridigmNS::Peridigm::executeImplicitDiffusion(Teuchos::RCP<Teuchos::Parame
           cout << "\nWarning:  Accepting current solution and progressing to next load step.\n" << endl;
       }
       else{
-        if(peridigmComm->MyPID() == 0)
-          cout << "\nError:  Aborting analysis.\n" << endl;
-        break;
+        TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "\n**** Error:  Aborting analysis, nonlinear solver failed to converge.\n");
       }
     }
 
-- 
2.43.0


From 63542f9d74652aeae17db84d770d05d060e79c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:20 +0000
Subject: [PATCH 09/27] fix: leave out bonds between blocks whose ids are not
 consecutive

The table of bonded blocks had one row per block but was addressed with
the block id, so a mesh with blocks 1 and 7 read beyond the table.
---
 .../Peridigm_AlbanyDiscretization.cpp         | 24 ++++---------------
 .../Peridigm_ExodusDiscretization.cpp         | 24 ++++---------------
 .../Peridigm_TextFileDiscretization.cpp       | 24 ++++---------------
 3 files changed, 12 insertions(+), 60 deletions(-)

diff --git a/src/io/discretization/Peridigm_AlbanyDiscretization.cpp b/src/io/discretization/Peridigm_AlbanyDiscretization.cpp
index 282bf46..46c5df6 100644
--- a/src/io/discretization/Peridigm_AlbanyDiscretization.cpp
+++ b/src/io/discretization/Peridigm_AlbanyDiscretization.cpp
@@ -380,27 +380,11 @@ PeridigmNS::AlbanyDiscretization::createNeighborhoodData(int neighborListSize, i
 Teuchos::RCP<PeridigmNS::NeighborhoodData>
 PeridigmNS::AlbanyDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::NeighborhoodData> unfilteredNeighborhoodData)
 {
-  // Set up a block bonding matrix, which defines whether or not bonds should be formed across blocks
-  int numBlocks = getNumBlocks();
-  std::vector< std::vector<bool> > blockBondingMatrix(numBlocks);
-  for(int i=0 ; i<numBlocks ; ++i){
-    blockBondingMatrix[i].resize(numBlocks, true);
-  }
-
   if(bondFilterCommand == "None"){
-    // All blocks are bonded, the blockBondingMatrix is unchanged
+    // All blocks are bonded
     return unfilteredNeighborhoodData;
   }
-  else if(bondFilterCommand == "All"){
-    // No blocks are bonded, the blockBondingMatrix is the identity matrix
-    for(int i=0 ; i<numBlocks ; ++i){
-      for(int j=0 ; j<numBlocks ; ++j){
-        if(i != j)
-          blockBondingMatrix[i][j] = false;
-      }
-    }
-  }
-  else{
+  else if(bondFilterCommand != "All"){
     string msg = "**** Error, unrecognized value for \"Omit Bonds Between Blocks\":  ";
     msg += bondFilterCommand + "\n";
     msg += "**** Valid options are:  All, None\n";
@@ -415,7 +399,7 @@ PeridigmNS::AlbanyDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighborh
   Teuchos::RCP<Epetra_Vector> ownedBlockIDs = getBlockID();
   blockIDs.Import(*ownedBlockIDs, importer, Insert);
 
-  // Apply the block bonding matrix and create a new NeighborhoodData
+  // Keep only the bonds within a block (block IDs need not be consecutive) and create a new NeighborhoodData
   Teuchos::RCP<PeridigmNS::NeighborhoodData> neighborhoodData = Teuchos::rcp(new PeridigmNS::NeighborhoodData);
   neighborhoodData->SetNumOwned(unfilteredNeighborhoodData->NumOwnedPoints());
   memcpy(neighborhoodData->OwnedIDs(), unfilteredNeighborhoodData->OwnedIDs(), neighborhoodData->NumOwnedPoints()*sizeof(int));
@@ -435,7 +419,7 @@ PeridigmNS::AlbanyDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighborh
     for(int iNID=0 ; iNID<numUnfilteredNeighbors ; ++iNID){
       int unfilteredNeighborID = unfilteredNeighborhoodList[unfilteredNeighborhoodListIndex++];
       int unfilteredNeighborBlockID = static_cast<int>(blockIDs[unfilteredNeighborID]);
-      if(blockBondingMatrix[blockID-1][unfilteredNeighborBlockID-1] == true){
+      if(blockID == unfilteredNeighborBlockID){
         neighborhoodListVec.push_back(unfilteredNeighborID);
         numNeighbors += 1;
       }
diff --git a/src/io/discretization/Peridigm_ExodusDiscretization.cpp b/src/io/discretization/Peridigm_ExodusDiscretization.cpp
index e4caa04..cd9aa84 100644
--- a/src/io/discretization/Peridigm_ExodusDiscretization.cpp
+++ b/src/io/discretization/Peridigm_ExodusDiscretization.cpp
@@ -708,27 +708,11 @@ PeridigmNS::ExodusDiscretization::createNeighborhoodData(int neighborListSize, i
 
 Teuchos::RCP<PeridigmNS::NeighborhoodData> PeridigmNS::ExodusDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::NeighborhoodData> unfilteredNeighborhoodData)
 {
-  // Set up a block bonding matrix, which defines whether or not bonds should be formed across blocks
-  int numBlocks = getNumBlocks();
-  vector< vector<bool> > blockBondingMatrix(numBlocks);
-  for(int i=0 ; i<numBlocks ; ++i){
-    blockBondingMatrix[i].resize(numBlocks, true);
-  }
-
   if(bondFilterCommand == "None"){
-    // All blocks are bonded, the blockBondingMatrix is unchanged
+    // All blocks are bonded
     return unfilteredNeighborhoodData;
   }
-  else if(bondFilterCommand == "All"){
-    // No blocks are bonded, the blockBondingMatrix is the identity matrix
-    for(int i=0 ; i<numBlocks ; ++i){
-      for(int j=0 ; j<numBlocks ; ++j){
-        if(i != j)
-          blockBondingMatrix[i][j] = false;
-      }
-    }
-  }
-  else{
+  else if(bondFilterCommand != "All"){
     string msg = "**** Error, unrecognized value for \"Omit Bonds Between Blocks\":  ";
     msg += bondFilterCommand + "\n";
     msg += "**** Valid options are:  All, None\n";
@@ -743,7 +727,7 @@ Teuchos::RCP<PeridigmNS::NeighborhoodData> PeridigmNS::ExodusDiscretization::fil
   Teuchos::RCP<Epetra_Vector> ownedBlockIDs = getBlockID();
   blockIDs.Import(*ownedBlockIDs, importer, Insert);
 
-  // Apply the block bonding matrix and create a new NeighborhoodData
+  // Keep only the bonds within a block (block IDs need not be consecutive) and create a new NeighborhoodData
   Teuchos::RCP<PeridigmNS::NeighborhoodData> neighborhoodData = Teuchos::rcp(new PeridigmNS::NeighborhoodData);
   neighborhoodData->SetNumOwned(unfilteredNeighborhoodData->NumOwnedPoints());
   memcpy(neighborhoodData->OwnedIDs(), unfilteredNeighborhoodData->OwnedIDs(), neighborhoodData->NumOwnedPoints()*sizeof(int));
@@ -763,7 +747,7 @@ Teuchos::RCP<PeridigmNS::NeighborhoodData> PeridigmNS::ExodusDiscretization::fil
     for(int iNID=0 ; iNID<numUnfilteredNeighbors ; ++iNID){
       int unfilteredNeighborID = unfilteredNeighborhoodList[unfilteredNeighborhoodListIndex++];
       int unfilteredNeighborBlockID = static_cast<int>(blockIDs[unfilteredNeighborID]);
-      if(blockBondingMatrix[blockID-1][unfilteredNeighborBlockID-1] == true){
+      if(blockID == unfilteredNeighborBlockID){
         neighborhoodListVec.push_back(unfilteredNeighborID);
         numNeighbors += 1;
       }
diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index 6089c12..5fe7ab4 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -352,27 +352,11 @@ PeridigmNS::TextFileDiscretization::createNeighborhoodData(const QUICKGRID::Data
 Teuchos::RCP<PeridigmNS::NeighborhoodData>
 PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::NeighborhoodData> unfilteredNeighborhoodData)
 {
-  // Set up a block bonding matrix, which defines whether or not bonds should be formed across blocks
-  int numBlocks = getNumBlocks();
-  std::vector< std::vector<bool> > blockBondingMatrix(numBlocks);
-  for(int i=0 ; i<numBlocks ; ++i){
-    blockBondingMatrix[i].resize(numBlocks, true);
-  }
-
   if(bondFilterCommand == "None"){
-    // All blocks are bonded, the blockBondingMatrix is unchanged
+    // All blocks are bonded
     return unfilteredNeighborhoodData;
   }
-  else if(bondFilterCommand == "All"){
-    // No blocks are bonded, the blockBondingMatrix is the identity matrix
-    for(int i=0 ; i<numBlocks ; ++i){
-      for(int j=0 ; j<numBlocks ; ++j){
-        if(i != j)
-          blockBondingMatrix[i][j] = false;
-      }
-    }
-  }
-  else{
+  else if(bondFilterCommand != "All"){
     string msg = "**** Error, unrecognized value for \"Omit Bonds Between Blocks\":  ";
     msg += bondFilterCommand + "\n";
     msg += "**** Valid options are:  All, None\n";
@@ -387,7 +371,7 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
   Teuchos::RCP<Epetra_Vector> ownedBlockIDs = getBlockID();
   blockIDs.Import(*ownedBlockIDs, importer, Insert);
 
-  // Apply the block bonding matrix and create a new NeighborhoodData
+  // Keep only the bonds within a block (block IDs need not be consecutive) and create a new NeighborhoodData
   Teuchos::RCP<PeridigmNS::NeighborhoodData> neighborhoodData = Teuchos::rcp(new PeridigmNS::NeighborhoodData);
   neighborhoodData->SetNumOwned(unfilteredNeighborhoodData->NumOwnedPoints());
   memcpy(neighborhoodData->OwnedIDs(), unfilteredNeighborhoodData->OwnedIDs(), neighborhoodData->NumOwnedPoints()*sizeof(int));
@@ -407,7 +391,7 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
     for(int iNID=0 ; iNID<numUnfilteredNeighbors ; ++iNID){
       int unfilteredNeighborID = unfilteredNeighborhoodList[unfilteredNeighborhoodListIndex++];
       int unfilteredNeighborBlockID = static_cast<int>(blockIDs[unfilteredNeighborID]);
-      if(blockBondingMatrix[blockID-1][unfilteredNeighborBlockID-1] == true){
+      if(blockID == unfilteredNeighborBlockID){
         neighborhoodListVec.push_back(unfilteredNeighborID);
         numNeighbors += 1;
       }
-- 
2.43.0


From e7c84e8d948f9b2e5882acac76884a0f2b45a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:43 +0000
Subject: [PATCH 10/27] fix: apply friction to both points of a contact pair
 when they barely slide

The relative velocity of the neighbor was computed separately from that of
the current point. When the two velocities differ by rounding only, one of
the relative velocities is zero and the other is not, so the full friction
force acted on one point without a reaction on the other.
---
 src/contact/Peridigm_ShortRangeForceContactModel.cpp        | 6 +++---
 ..._UserDefinedTimeDependentShortRangeForceContactModel.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/contact/Peridigm_ShortRangeForceContactModel.cpp b/src/contact/Peridigm_ShortRangeForceContactModel.cpp
index 235dabf..a60edba 100644
--- a/src/contact/Peridigm_ShortRangeForceContactModel.cpp
+++ b/src/contact/Peridigm_ShortRangeForceContactModel.cpp
@@ -179,9 +179,9 @@ PeridigmNS::ShortRangeForceContactModel::computeForce(const double dt,
             nodeCurrentVrel[1] = nodeCurrentVperp[1] - Vcm[1];
             nodeCurrentVrel[2] = nodeCurrentVperp[2] - Vcm[2];
 
-            nodeNeighborVrel[0] = nodeNeighborVperp[0] - Vcm[0];
-            nodeNeighborVrel[1] = nodeNeighborVperp[1] - Vcm[1];
-            nodeNeighborVrel[2] = nodeNeighborVperp[2] - Vcm[2];
+            nodeNeighborVrel[0] = -nodeCurrentVrel[0];
+            nodeNeighborVrel[1] = -nodeCurrentVrel[1];
+            nodeNeighborVrel[2] = -nodeCurrentVrel[2];
 
             normCurrentVrel = sqrt(nodeCurrentVrel[0]*nodeCurrentVrel[0] + 
                                    nodeCurrentVrel[1]*nodeCurrentVrel[1] + 
diff --git a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
index e9f5d75..10a95b4 100644
--- a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
+++ b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
@@ -227,9 +227,9 @@ PeridigmNS::UserDefinedTimeDependentShortRangeForceContactModel::computeForce(co
             nodeCurrentVrel[1] = nodeCurrentVperp[1] - Vcm[1];
             nodeCurrentVrel[2] = nodeCurrentVperp[2] - Vcm[2];
 
-            nodeNeighborVrel[0] = nodeNeighborVperp[0] - Vcm[0];
-            nodeNeighborVrel[1] = nodeNeighborVperp[1] - Vcm[1];
-            nodeNeighborVrel[2] = nodeNeighborVperp[2] - Vcm[2];
+            nodeNeighborVrel[0] = -nodeCurrentVrel[0];
+            nodeNeighborVrel[1] = -nodeCurrentVrel[1];
+            nodeNeighborVrel[2] = -nodeCurrentVrel[2];
 
             normCurrentVrel = sqrt(nodeCurrentVrel[0]*nodeCurrentVrel[0] + 
                                    nodeCurrentVrel[1]*nodeCurrentVrel[1] + 
-- 
2.43.0


From 55242e2287a767dc92f36a9cfbe6df10695425d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:59 +0000
Subject: [PATCH 11/27] fix: apply prescribed values and body forces of the
 current time in implicit dynamics

The implicit time integrator evaluated the boundary conditions once, before
the first step, so a prescribed displacement or temperature that varies in
time had no effect.  Body forces were evaluated at the start of each step
instead of its end.
---
 src/core/Peridigm.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index ad847bd..8bda6d3 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -3711,6 +3711,9 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "Load step " << step << ", initial time = " << step*dt << ", final time = " << (step+1)*dt << endl;
 
+    timePrevious = timeCurrent;
+    timeCurrent = timeInitial + (step+1)*dt;
+
     *un = *u;
     *vn = *v;
     *an = *a;
@@ -3720,6 +3723,12 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
       *fluidPressureVn = *fluidPressureV;
     }
 
+    // Evaluate the prescribed increments for this step
+    PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
+    deltaU->PutScalar(0.0);
+    boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent, timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
+
     //u2 = un + dt*vn + 0.5*dt*dt*(1-2*beta)*an
     u2->Update(1.0, *un, 0.0);
     u2->Update(dt, *vn, 0.5*dt2*(1.0-2.0*beta), *an, 1.0);
@@ -3745,8 +3754,15 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     // Fill the owned vectors with probe data
     // Assign predictor (use u2)
     u->Update(1.0, *u2, 0.0);
+    // Degrees of freedom with a kinematic BC follow the prescribed increment
+    residual->PutScalar(1.0);
+    boundaryAndInitialConditionManager->applyKinematicBC_InsertZeros(residual);
+    for(int i=0 ; i<u->MyLength() ; i+=3)
+      for(int j=0 ; j<3 ; ++j)
+        if((*residual)[(3+numMultiphysDoFs)*i/3+j] == 0.0)
+          (*u)[i+j] = (*un)[i+j] + (*deltaU)[i+j];
     // a = (1.0/(beta*dt*dt))*(u_np1 - u2);
-    // a will be zero unless a different predictor is used, so do the following computation anyway
+    // a is zero except where a kinematic BC replaces the predictor
     a->Update(1.0, *u, -1.0, *u2, 0.0);
     a->Scale(1.0/(beta*dt2));
     // v = v2 + dt*gamma*an
@@ -3756,6 +3772,9 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
 
     if(analysisHasMultiphysics){
       fluidPressureU->Update(1.0,*fluidPressureU2,0.0);
+      for(int i=0 ; i<fluidPressureU->MyLength() ; ++i)
+        if((*residual)[(3+numMultiphysDoFs)*i+3] == 0.0)
+          (*fluidPressureU)[i] = (*fluidPressureUn)[i] + (*fluidPressureDeltaU)[i];
       fluidPressureY->Update(1.0, *fluidPressureU, 0.0);
     }
 
@@ -3996,9 +4015,6 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "  iteration " << NLSolverIteration << ": residual = " << residualNorm << "\n" << endl;
 
-    timePrevious = timeCurrent;
-    timeCurrent = timeInitial + (step+1)*dt;
-
     // Write output for completed time step
     PeridigmNS::Timer::self().startTimer("Output");
     synchDataManagers();
-- 
2.43.0


From 019a7770e7f191d6bf755aa07aa759883f6604a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:07 +0000
Subject: [PATCH 12/27] fix: report implicit time steps that fail to converge

The implicit time integrator went on to the next step without a word when
the residual was still above the requested tolerance.
---
 src/core/Peridigm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 8bda6d3..75b1235 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4015,6 +4015,9 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "  iteration " << NLSolverIteration << ": residual = " << residualNorm << "\n" << endl;
 
+    if(!(residualNorm <= absoluteTolerance) && peridigmComm->MyPID() == 0)
+      cout << "Warning:  Nonlinear solver failed to converge in time step " << step << "!  Proceeding with nonconverged solution..." << endl;
+
     // Write output for completed time step
     PeridigmNS::Timer::self().startTimer("Output");
     synchDataManagers();
-- 
2.43.0


From 0a587cd258dde10b3a4544284ba47fd02215d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:34 +0000
Subject: [PATCH 13/27] fix: reject mesh and node set lines that cannot be read
 completely

A block id with a fraction was truncated, text after the fifth number of a
mesh line was dropped even when it belonged to the number, and a node set
line such as "1, 2" kept only its first member.  A read error was taken for
the end of the file.
---
 .../Peridigm_BoundaryAndInitialConditionManager.cpp    |  7 +++++++
 .../discretization/Peridigm_TextFileDiscretization.cpp | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
index 723e1ee..b846a66 100644
--- a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
+++ b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
@@ -245,6 +245,12 @@ void PeridigmNS::BoundaryAndInitialConditionManager::initializeNodeSets(Teuchos:
             copy(istream_iterator<int>(iss),
                  istream_iterator<int>(),
                  back_inserter<vector<int> >(nodeNumbers));
+            // Anything that follows the node numbers must be a comment
+            string remainder;
+            iss.clear();
+            iss >> remainder;
+            TEUCHOS_TEST_FOR_EXCEPT_MSG(remainder.size() > 0 && remainder[0] != '#' && remainder[0] != '/' && remainder[0] != '*',
+                                        "**** Error parsing node set text file " + fileName + ", invalid line: " + str + "\n");
             for(unsigned int i=0 ; i<nodeNumbers.size() ; ++i){
               // Convert from 1-based node numbering (Exodus II) to 0-based node numbering (Epetra and all the rest of Peridigm)
               TEUCHOS_TEST_FOR_EXCEPT_MSG(nodeNumbers[i] < 1, "**** Error:  Node number 0 detected in nodeset file; node numbering must begin with 1.\n");
@@ -252,6 +258,7 @@ void PeridigmNS::BoundaryAndInitialConditionManager::initializeNodeSets(Teuchos:
             }
           }
         }
+        TEUCHOS_TEST_FOR_EXCEPT_MSG(inFile.bad(), "**** Error reading node set text file: " + fileName + "\n");
         inFile.close();
       }
     }
diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index 5fe7ab4..184793e 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -148,10 +148,15 @@ QUICKGRID::Data PeridigmNS::TextFileDiscretization::getDecomp(const string& text
         copy(istream_iterator<double>(iss),
              istream_iterator<double>(),
              back_inserter<vector<double> >(data));
+        // Anything that follows the data must be a comment
+        string remainder;
+        iss.clear();
+        iss >> remainder;
+        bool hasRemainder = remainder.size() > 0 && remainder[0] != '#' && remainder[0] != '/' && remainder[0] != '*';
         // Check for obvious problems with the data
-        if(data.size() != 5){
+        if(data.size() != 5 || hasRemainder || data[3] != static_cast<int>(data[3])){
           string msg = "\n**** Error parsing text file, invalid line: " + str + "\n";
-          TEUCHOS_TEST_FOR_TERMINATION(data.size() != 5, msg);
+          TEUCHOS_TEST_FOR_TERMINATION(true, msg);
         }
         // Store the coordinates, block id, and volumes
         coordinates.push_back(data[0]);
@@ -161,6 +166,7 @@ QUICKGRID::Data PeridigmNS::TextFileDiscretization::getDecomp(const string& text
         volumes.push_back(data[4]);
       }
     }
+    TEUCHOS_TEST_FOR_TERMINATION(inFile.bad(), "**** Error reading discretization text file.\n");
     inFile.close();
   }
 
-- 
2.43.0


From 1a12d25158a65447b0f39934d966d63282e166ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:50 +0000
Subject: [PATCH 14/27] fix: neighbor search no longer crashes on a processor
 without points

---
 src/io/utilities/Sortable.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/utilities/Sortable.cxx b/src/io/utilities/Sortable.cxx
index ceb9a7a..f484bec 100644
--- a/src/io/utilities/Sortable.cxx
+++ b/src/io/utilities/Sortable.cxx
@@ -224,6 +224,10 @@ Array<int> getPointsInNeighborhoodOfAxisAlignedMaximumValue
 
 shared_ptr< std::set<int> > constructFrameSet(size_t num_owned_points, shared_ptr<double> owned_x, double horizon) {
 
+  // A processor without points has no frame
+  if(num_owned_points == 0)
+    return shared_ptr< std::set<int> >(new std::set<int>);
+
   Sortable points(num_owned_points, owned_x);
 
   size_t numAxes=3;
-- 
2.43.0


From 7bd05cfaf22e0e030cd4db680473cffeee208bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:13 +0000
Subject: [PATCH 15/27] fix: keep broken bonds broken in the time-dependent
 critical stretch model

The previous bond damage was assigned to a temporary pointer instead of being
copied, so a bond that was broken in one step could be whole again in the next.
---
 ...digm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index c705cee..b024c69 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -184,8 +184,7 @@ PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::computeDamage(co
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
   // Set the bond damage to the previous value
-  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1) =
-    dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N);
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) = *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
 
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
-- 
2.43.0


From de3c7742173f42f19915379754ef512f128c345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:13 +0000
Subject: [PATCH 16/27] fix: keep broken bonds broken in the interface aware
 damage model

The bond damage of the previous step was not carried over, and rank deficient
nodes were recorded by their local instead of their global id, which removed
other nodes from the linear system on more than one processor.
---
 .../Peridigm_InterfaceAwareDamageModel.cpp    | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
index 7672cf1..3be3b07 100644
--- a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
+++ b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
@@ -135,6 +135,9 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
   int nodeId, numNeighbors, neighborID, iID, iNID;
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
+  // Set the bond damage to the previous value
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) = *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
+
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
   for(iID=0 ; iID<numOwnedPoints ; ++iID){
@@ -192,28 +195,32 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
     totalDamage += bondDamage[bondIndex++];
     }
 
-    if(totalDamage >= numNeighbors-2) // This would imply rank deficiency and would lead to problems in CG
-    {
-      const string deficientSetName = "RANK_DEFICIENT_NODES";
-      TEUCHOS_TEST_FOR_EXCEPTION(nodeSetMap->find(deficientSetName)==nodeSetMap->end(),std::logic_error,"Error: The placeholder nodeset for rank deficient nodes is missing.");
-      bool nodeAlreadyRegistered = false;
-      vector<int> * deficientSet = &nodeSetMap->find(deficientSetName)->second;
-      for(unsigned i=0;i<deficientSet->size();++i)
-        if((*deficientSet)[i]==nodeId)
+    const string deficientSetName = "RANK_DEFICIENT_NODES";
+    // node sets contain global ids
+    int globalId = dataManager.getOverlapScalarPointMap()->GID(nodeId);
+    bool nodeAlreadyRegistered = false;
+    if(nodeSetMap->find(deficientSetName) != nodeSetMap->end()){
+      const vector<int>& deficientSet = nodeSetMap->find(deficientSetName)->second;
+      for(unsigned i=0;i<deficientSet.size();++i)
+        if(deficientSet[i]==globalId)
           nodeAlreadyRegistered = true;
+    }
 
+    if(nodeAlreadyRegistered || totalDamage >= numNeighbors-2) // This would imply rank deficiency and would lead to problems in CG
+    {
+      TEUCHOS_TEST_FOR_EXCEPTION(nodeSetMap->find(deficientSetName)==nodeSetMap->end(),std::logic_error,"Error: The placeholder nodeset for rank deficient nodes is missing.");
       if(!nodeAlreadyRegistered){
         cout << "Warning: Potentially rank deficient node detected (Node with 2 or less bonds). " << endl
-             << "Node " << nodeId + 1 << " will be removed from the linear system." << endl;
-        deficientSet->push_back(nodeId);
-
-        // if the node is removed from the linear system break all its bonds
-        bondIndex -= numNeighbors;
-        for(iNID=0 ; iNID<numNeighbors ; ++iNID){
-          bondDamage[bondIndex++] = 1.0;
-        }
-        totalDamage = numNeighbors;
+             << "Node " << globalId + 1 << " will be removed from the linear system." << endl;
+        nodeSetMap->find(deficientSetName)->second.push_back(globalId);
+      }
+
+      // if the node is removed from the linear system break all its bonds
+      bondIndex -= numNeighbors;
+      for(iNID=0 ; iNID<numNeighbors ; ++iNID){
+        bondDamage[bondIndex++] = 1.0;
       }
+      totalDamage = numNeighbors;
     }
 
 
-- 
2.43.0


From 3424d1b1ce9b7535aff891d1ed1119ac0c836a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:31 +0000
Subject: [PATCH 17/27] fix: bonds broken in the initial configuration stay
 broken

The explicit solver evaluates the damage models once before the first time
step, but the first step started again from the undamaged bond data.  Bonds
that exceed the failure criterion in the initial configuration could
therefore be intact again after the first step.
---
 src/core/Peridigm.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 75b1235..4460efc 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1395,6 +1395,16 @@ void PeridigmNS::Peridigm::executeExplicit(Teuchos::RCP<Teuchos::ParameterList>
     modelEvaluator->evalModel(workset);
     PeridigmNS::Timer::self().stopTimer("Internal Force");
 
+    // Bonds that fail in the initial configuration remain broken in the first time step
+    PeridigmNS::FieldManager& fieldManager = PeridigmNS::FieldManager::self();
+    if(fieldManager.hasField("Bond_Damage")){
+      int bondDamageFieldId = fieldManager.getFieldId("Bond_Damage");
+      for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++){
+        if(blockIt->hasData(bondDamageFieldId, PeridigmField::STEP_NP1))
+          *blockIt->getData(bondDamageFieldId, PeridigmField::STEP_N) = *blockIt->getData(bondDamageFieldId, PeridigmField::STEP_NP1);
+      }
+    }
+
     // Copy force from the data manager to the mothership vector
     PeridigmNS::Timer::self().startTimer("Gather/Scatter");
     force->PutScalar(0.0);
-- 
2.43.0


From 29b86da71da72b51f73fb4f9b11d2ca99edf4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:35 +0000
Subject: [PATCH 18/27] fix: contact without interacting block pairs no longer
 hangs

With a single block and only a General Contact definition the set of contact
interactions is empty, and removing duplicates stepped past its end and never
came back.
---
 src/core/Peridigm_ContactManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm_ContactManager.cpp b/src/core/Peridigm_ContactManager.cpp
index 6754978..94d4216 100644
--- a/src/core/Peridigm_ContactManager.cpp
+++ b/src/core/Peridigm_ContactManager.cpp
@@ -203,7 +203,8 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
   // Elliminate duplicates and load the interactions into a vector
   std::set< std::tuple<int, int, string> >::iterator it, nextIt;
   nextIt = contactInteractionSet.begin();
-  nextIt++;
+  if( nextIt != contactInteractionSet.end() )
+    nextIt++;
   for(it = contactInteractionSet.begin() ; it != contactInteractionSet.end() ; it++){
     // If a block pair has multiple contact definitions, the final definition is the one that will be used
     bool duplicate = false;
-- 
2.43.0


From 70095eaa6cbdf8c18ba9545ae055d101f1dbce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:52 +0000
Subject: [PATCH 19/27] fix: search for initial contacts in the initial
 configuration

The first contact search used the positions from before the initial
displacements were applied, so pairs brought together by an initial
displacement were missed until the next search.
---
 src/core/Peridigm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 4460efc..9b2b8e4 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -736,8 +736,11 @@ PeridigmNS::Peridigm::Peridigm(const MPI_Comm& comm,
 
   // Call rebalance function if analysis has contact
   // this is required to set up proper contact neighbor list
-  if(analysisHasContact)
+  if(analysisHasContact){
+    // The search must take place in the initial configuration, including initial displacements
+    contactManager->importData(volume, y, v);
     contactManager->rebalance(0);
+  }
 
   // Create service manager
   serviceManager = Teuchos::rcp(new PeridigmNS::ServiceManager());
-- 
2.43.0


From ce627ba36ecc9d090abd271ee80691bfe80649e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:06 +0000
Subject: [PATCH 20/27] fix: stop all processors before collecting timing data
 of a failed run

Timing data are collected from all processors, so a processor that failed
alone waited there forever instead of stopping the others.
---
 src/core/Peridigm_Main.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Peridigm_Main.cpp b/src/core/Peridigm_Main.cpp
index 3980c19..6b6a997 100644
--- a/src/core/Peridigm_Main.cpp
+++ b/src/core/Peridigm_Main.cpp
@@ -148,13 +148,16 @@ int main(int argc, char *argv[]) {
     status = 40;
   }
 
-  PeridigmNS::Timer::self().stopTimer("Total");
-  PeridigmNS::Timer::self().printTimingData(cout);
-
 #ifdef HAVE_MPI
   // The exception may have been thrown on this processor only, the others must not be left waiting
   if(status != 0 && mpi_size > 1)
     MPI_Abort(peridigmComm, status);
+#endif
+
+  PeridigmNS::Timer::self().stopTimer("Total");
+  PeridigmNS::Timer::self().printTimingData(cout);
+
+#ifdef HAVE_MPI
   MPI_Finalize() ;
 #endif
 
-- 
2.43.0


From 2369899b6b3dc4f7db8a9b1a8f1783b67046868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:37 +0000
Subject: [PATCH 21/27] fix: write complete and verified restart data and
 continue from it

Restart folders are numbered, and a folder counts only when its time file is
in place, which happens after everything else was written and read back.
Failures while restart data is written or read end the run with an error.
All processors use the same folder.  The state of the blocks, temperature and
flux divergence are restored, and conditions that belong to time zero are not
applied again when a run continues.
---
 src/core/Peridigm.cpp             | 472 ++++++++++++++----------------
 src/core/Peridigm_DataManager.hpp |  12 +-
 src/core/Peridigm_State.cpp       |  69 +++--
 src/core/Peridigm_State.hpp       |   6 +
 4 files changed, 272 insertions(+), 287 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 9b2b8e4..a05a675 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -99,6 +99,10 @@
 #include "EpetraExt_VectorIn.h"
 #include "EpetraExt_VectorOut.h"
 #include <sys/stat.h>
+#include <dirent.h>
+#include <cerrno>
+#include <cstdio>
+#include <iomanip>
 
 using namespace std;
 
@@ -141,12 +145,7 @@ PeridigmNS::Peridigm::Peridigm(const MPI_Comm& comm,
 #else
   peridigmComm = Teuchos::rcp(new Epetra_SerialComm);
 #endif
-  if(peridigmComm->MyPID() == 0)
-    if(params->isParameter("Multiphysics") && params->isParameter("Restart") ){
-      TEUCHOS_TEST_FOR_EXCEPT_MSG((params->isParameter("Multiphysics") && params->isParameter("Restart") ), "Error: Restart for Multiphysics is not implemented yet.\n");
-      MPI_Finalize();
-      exit(0);
-    }
+  TEUCHOS_TEST_FOR_EXCEPT_MSG((params->isParameter("Multiphysics") && params->isParameter("Restart") ), "Error: Restart for Multiphysics is not implemented yet.\n");
   peridigmParams = params;
   // set the comm for memory use statistics
   Memstat * memstat = Memstat::Instance();
@@ -944,20 +943,34 @@ void PeridigmNS::Peridigm::initializeWorkset() {
   workset->jacobian = overlapJacobian;
 }
 
-std::string getCmdOutput(const std::string& mStr)
+// Returns the number of the most recent restart folder that was completely written, or zero if there is none.
+// The file that contains the current time is put in place last, a folder without it is incomplete.
+int findRestartFolder(bool & incompleteFolderExists)
 {
-  std::string result, file;
-  FILE* pipe;
-  char buffer[256];
-  pipe=popen(mStr.c_str(), "r");
-  while(fgets(buffer, sizeof(buffer), pipe) != NULL)
-  {
-    file = buffer;
-    result += file.substr(0, file.size() - 1);
+  int newest = 0;
+  incompleteFolderExists = false;
+  DIR* directory = opendir(".");
+  TEUCHOS_TEST_FOR_TERMINATION(directory == NULL, "Error: Unable to look for restart folders.\n");
+  while(struct dirent* entry = readdir(directory)){
+    int number;
+    char name[100];
+    if(sscanf(entry->d_name, "restart-%d", &number) != 1)
+      continue;
+    sprintf(name, "restart-%06d", number);
+    if(number < 1 || std::string(entry->d_name) != name)
+      continue;
+    struct stat sb;
+    if(stat((std::string(name) + "/currentTime.txt").c_str(), &sb) == 0){
+      if(number > newest)
+        newest = number;
+    }
+    else{
+      TEUCHOS_TEST_FOR_TERMINATION(errno != ENOENT && errno != ENOTDIR, "Error: Unable to examine the restart folders.\n");
+      incompleteFolderExists = true;
+    }
   }
-
-  pclose(pipe);
-  return result;
+  closedir(directory);
+  return newest;
 }
 
 std::string firstNumbersSring(std::string const & str)
@@ -973,41 +986,33 @@ std::string firstNumbersSring(std::string const & str)
 
 void PeridigmNS::Peridigm::InitializeRestart() {
   Teuchos::RCP<Teuchos::ParameterList> firstSolver = solverParameters[0];
-  std::string str;
-  struct stat sb;
-  char const * restart_directory_namePtr;
-  if (stat("restart-000001", &sb) == 0 && S_ISDIR(sb.st_mode)){
-    str=getCmdOutput("ls -td -- ./restart*/ | head -n1 | cut -d'/' -f2");
-    if (str != ""){
-      if(peridigmComm->MyPID() == 0){
-        cout <<"Restart folder exists, will attempt to read the restart files. \n"<< endl;
-        cout.flush();
-      }
-      std::vector<char> writable(str.begin(), str.end());
-      writable.push_back('\0');
-      restart_directory_namePtr=&*writable.begin();
-      setRestartNames(restart_directory_namePtr);
-      readRestart(firstSolver);
-      analysisHasReadRestart = true;
-      if(peridigmComm->MyPID() == 0){
-        cout <<"Restart is initialized." << endl;
-        cout.flush();
-      }
-    }else{
-      if(peridigmComm->MyPID() == 0){
-        TEUCHOS_TEST_FOR_TERMINATION(true, "Error: Initial restart folder exists, but it is not suitable for a restart. \n");
-        MPI_Finalize();
-        exit(0);
-      }
+  // All processors must use the same restart folder
+  int folderNumber = 0;
+  if(peridigmComm->MyPID() == 0){
+    bool incompleteFolderExists;
+    folderNumber = findRestartFolder(incompleteFolderExists);
+    TEUCHOS_TEST_FOR_TERMINATION(folderNumber == 0 && incompleteFolderExists, "Error: Initial restart folder exists, but it is not suitable for a restart. \n");
+  }
+  peridigmComm->Broadcast(&folderNumber, 1, 0);
+  char restartFolder[100];
+  sprintf(restartFolder, "restart-%06d", folderNumber);
+  setRestartNames(restartFolder);
+  if (folderNumber > 0){
+    if(peridigmComm->MyPID() == 0){
+      cout <<"Restart folder exists, will attempt to read the restart files. \n"<< endl;
+      cout.flush();
+    }
+    readRestart(firstSolver);
+    analysisHasReadRestart = true;
+    if(peridigmComm->MyPID() == 0){
+      cout <<"Restart is initialized." << endl;
+      cout.flush();
     }
   }else{
     if(peridigmComm->MyPID() == 0){
       cout <<"Initial restart folder does not exist." << endl;
       cout.flush();
     }
-    restart_directory_namePtr ="restart-000000";
-    setRestartNames(restart_directory_namePtr);
-    currentTime = firstSolver->get("Initial Time", 0.0);
   }
 }
 
@@ -1033,6 +1038,14 @@ restartFiles["volume"] = pathname;
 sprintf(pathname,"%s/density.mat",restart_directory_namePtr);
 restartFiles["density"] = pathname;
 
+//temperature restart file
+sprintf(pathname,"%s/temperature.mat",restart_directory_namePtr);
+restartFiles["temperature"] = pathname;
+
+//fluxDivergence restart file
+sprintf(pathname,"%s/fluxDivergence.mat",restart_directory_namePtr);
+restartFiles["fluxDivergence"] = pathname;
+
 //deltaTemperature restart file
 sprintf(pathname,"%s/deltaTemperature.mat",restart_directory_namePtr);
 restartFiles["deltaTemperature"] = pathname;
@@ -1447,6 +1460,13 @@ void PeridigmNS::Peridigm::executeExplicit(Teuchos::RCP<Teuchos::ParameterList>
   outputManager->write(blocks, timeCurrent);
   PeridigmNS::Timer::self().stopTimer("Output");
 
+  // Data from restart files belong to the previous step, swap state N and state NP1 as at the end of that step
+  if(analysisHasReadRestart){
+    for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
+      blockIt->updateState();
+    analysisHasReadRestart = false;
+  }
+
   int displayTrigger = nsteps/100;
   if(displayTrigger == 0)
     displayTrigger = 1;
@@ -2092,13 +2112,15 @@ void PeridigmNS::Peridigm::executeNOXQuasiStatic(Teuchos::RCP<Teuchos::Parameter
   double timeCurrent = timeSteps[0];
   double timePrevious = timeCurrent;
 
-  // Apply BC at time zero
-  PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
-  boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
-  PeridigmNS::Timer::self().startTimer("Apply Body Forces");
-  boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
+  // Apply BC at time zero, unless the state was read from restart files
+  if(!analysisHasReadRestart){
+    PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
+    boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
+    PeridigmNS::Timer::self().startTimer("Apply Body Forces");
+    boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
+  }
 
   // Write initial configuration to disk
   PeridigmNS::Timer::self().startTimer("Output");
@@ -2106,6 +2128,13 @@ void PeridigmNS::Peridigm::executeNOXQuasiStatic(Teuchos::RCP<Teuchos::Parameter
   outputManager->write(blocks, timeCurrent);
   PeridigmNS::Timer::self().stopTimer("Output");
 
+  // Data from restart files belong to the previous step, swap state N and state NP1 as at the end of that step
+  if(analysisHasReadRestart){
+    for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
+      blockIt->updateState();
+    analysisHasReadRestart = false;
+  }
+
   // Functionality for updating the Jacobian at a user-specified interval
   // This does not appear to be available for nonlinear CG in NOX, but it's important for peridynamics, so
   // we'll handle it directly within Peridigm
@@ -2650,13 +2679,15 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
   double timeCurrent = timeSteps[0];
   double timePrevious = timeCurrent;
 
-  // Apply BC at time zero for the sake of I/O
-  PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
-  boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
-  PeridigmNS::Timer::self().startTimer("Apply Body Forces");
-  boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
+  // Apply BC at time zero for the sake of I/O, unless the state was read from restart files
+  if(!analysisHasReadRestart){
+    PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
+    boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
+    PeridigmNS::Timer::self().startTimer("Apply Body Forces");
+    boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
+  }
 
   // Write initial configuration to disk
   PeridigmNS::Timer::self().startTimer("Output");
@@ -2664,6 +2695,13 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
   outputManager->write(blocks, timeCurrent);
   PeridigmNS::Timer::self().stopTimer("Output");
 
+  // Data from restart files belong to the previous step, swap state N and state NP1 as at the end of that step
+  if(analysisHasReadRestart){
+    for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
+      blockIt->updateState();
+    analysisHasReadRestart = false;
+  }
+
   Epetra_Time loadStepCPUTime(*peridigmComm);
   double cumulativeLoadStepCPUTime = 0.0;
 
@@ -3129,16 +3167,18 @@ void PeridigmNS::Peridigm::executeImplicitDiffusion(Teuchos::RCP<Teuchos::Parame
   double timePrevious = timeCurrent;
   bool solverFailedToConverge = false;
 
-  // Apply BC at time zero
-  PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
-  boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
-  PeridigmNS::Timer::self().startTimer("Apply Body Forces");
-  boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
-  PeridigmNS::Timer::self().startTimer("Apply Initial Conditions");
-  boundaryAndInitialConditionManager->applyInitialConditions();
-  PeridigmNS::Timer::self().stopTimer("Apply Initial Conditions");
+  // Apply BC at time zero, unless the state was read from restart files
+  if(!analysisHasReadRestart){
+    PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
+    boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
+    PeridigmNS::Timer::self().startTimer("Apply Body Forces");
+    boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
+    PeridigmNS::Timer::self().startTimer("Apply Initial Conditions");
+    boundaryAndInitialConditionManager->applyInitialConditions();
+    PeridigmNS::Timer::self().stopTimer("Apply Initial Conditions");
+  }
 
   // Write initial configuration to disk
   PeridigmNS::Timer::self().startTimer("Output");
@@ -3146,6 +3186,13 @@ void PeridigmNS::Peridigm::executeImplicitDiffusion(Teuchos::RCP<Teuchos::Parame
   outputManager->write(blocks, timeCurrent);
   PeridigmNS::Timer::self().stopTimer("Output");
 
+  // Data from restart files belong to the previous step, swap state N and state NP1 as at the end of that step
+  if(analysisHasReadRestart){
+    for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
+      blockIt->updateState();
+    analysisHasReadRestart = false;
+  }
+
   Epetra_Time loadStepCPUTime(*peridigmComm);
   double cumulativeLoadStepCPUTime = 0.0;
 
@@ -3705,13 +3752,15 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
   // \todo Put in mothership.
   //Teuchos::RCP<Epetra_Vector> deltaU = Teuchos::rcp(new Epetra_Vector(*threeDimensionalMap));
 
-  // Apply BC at time zero
-  PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
-  boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
-  PeridigmNS::Timer::self().startTimer("Apply Body Forces");
-  boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
-  PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
+  // Apply BC at time zero, unless the state was read from restart files
+  if(!analysisHasReadRestart){
+    PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
+    boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
+    PeridigmNS::Timer::self().startTimer("Apply Body Forces");
+    boundaryAndInitialConditionManager->applyForceContributions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Body Forces");
+  }
 
   // Write initial configuration to disk
   PeridigmNS::Timer::self().startTimer("Output");
@@ -3719,6 +3768,13 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
   outputManager->write(blocks, timeCurrent);
   PeridigmNS::Timer::self().stopTimer("Output");
 
+  // Data from restart files belong to the previous step, swap state N and state NP1 as at the end of that step
+  if(analysisHasReadRestart){
+    for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
+      blockIt->updateState();
+    analysisHasReadRestart = false;
+  }
+
   for(int step=0; step<nsteps ; step++){
 
     if(peridigmComm->MyPID() == 0)
@@ -4475,104 +4531,70 @@ void PeridigmNS::Peridigm::displayProgress(string title, double percentComplete)
 }
 
 void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> solverParams){
-//  system("date +"%m-%d-%Y-%H-%M-%S"");
-  char createDirectory[100];
-  char  path[100];
-  int IterationNumber;
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(analysisHasMultiphysics, "Error: Restart for Multiphysics is not implemented yet.\n");
 
-  if(peridigmComm->MyPID() == 0){
-  IterationNumber = atoi(firstNumbersSring( restartFiles["path"]  ).c_str())+1;
-  sprintf(path,"restart-%06d",IterationNumber);
-  cout << "The restart folder is " << path  <<"." << endl;
+  char path[100];
+  int iterationNumber = atoi(firstNumbersSring( restartFiles["path"]  ).c_str())+1;
+  sprintf(path,"restart-%06d",iterationNumber);
   setRestartNames(path);
-  sprintf(createDirectory,"mkdir %s",path);
-  system(createDirectory);
-  cout << "Writing restart files. \n" << endl;
-
-  double timeInitial = solverParams->get("Initial Time", 0.0);
-  currentTime += solverParams->get("Final Time", 1.0)-timeInitial;
-  ofstream outputFile;
-  outputFile.open(restartFiles["currentTime"].c_str());
-  outputFile << "Current time is " << "\n" << currentTime  << "\n";
-  outputFile.close();
-  }
-  if(analysisHasMultiphysics){
-    cout << "Restart for Multiphysics is not implemented yet." << endl;
-    exit (0);
-  }
-  else {
-    //write block ID
-    EpetraExt::VectorToMatrixMarketFile(restartFiles["blockIDs"].c_str(),
-      *blockIDs,"blockIDs","",true);
-    //write horizon for each point
-    EpetraExt::VectorToMatrixMarketFile(restartFiles["horizon"].c_str(),
-      *horizon,"horizon","",true);
-    //write cell volume
-    EpetraExt::VectorToMatrixMarketFile(restartFiles["volume"].c_str(),
-      *volume,"volume","",true);
-    //write density
-    EpetraExt::VectorToMatrixMarketFile(restartFiles["density"].c_str(),
-      *density,"density","",true);
-    //write change in temperature
-    EpetraExt::VectorToMatrixMarketFile(restartFiles["deltaTemperature"].c_str(),
-      *deltaTemperature,"deltaTemperature","",true);
-  }
-  //write initial positions
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["x"].c_str(),
-    *x,"x","",true);
-  //write displacement
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["u"].c_str(),
-    *u,"u","",true);
-  //write current positions
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["y"].c_str(),
-    *y,"y","",true);
-  //write velocities
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["v"].c_str(),
-    *v,"v","",true);
-  //write accelerations
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["a"].c_str(),
-    *a,"a","",true);
-  //write force
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["force"].c_str(),
-    *force,"force","",true);
-  //write contact force
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["contactForce"].c_str(),
-    *contactForce,"contactForce","",true);
-  //write external force
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["externalForce"].c_str(),
-    *externalForce,"externalForce","",true);
-  //write deltaU (increment in displacement)
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["deltaU"].c_str(),
-    *deltaU,"deltaU","",true);
-  //write scratch
-  EpetraExt::VectorToMatrixMarketFile(restartFiles["scratch"].c_str(),
-    *scratch,"scratch","",true);
+  if(peridigmComm->MyPID() == 0){
+    cout << "The restart folder is " << path  <<"." << endl;
+    // The folder may exist already if an earlier run was interrupted while writing it
+    int err = mkdir(path, 0777);
+    TEUCHOS_TEST_FOR_TERMINATION(err != 0 && errno != EEXIST, "**** Error, unable to create restart folder.\n");
+    cout << "Writing restart files. \n" << endl;
+  }
+
+  PeridigmNS::State::writeToDisk(restartFiles["blockIDs"], "blockIDs", *blockIDs);
+  PeridigmNS::State::writeToDisk(restartFiles["horizon"], "horizon", *horizon);
+  PeridigmNS::State::writeToDisk(restartFiles["volume"], "volume", *volume);
+  PeridigmNS::State::writeToDisk(restartFiles["density"], "density", *density);
+  PeridigmNS::State::writeToDisk(restartFiles["temperature"], "temperature", *temperature);
+  PeridigmNS::State::writeToDisk(restartFiles["fluxDivergence"], "fluxDivergence", *fluxDivergence);
+  PeridigmNS::State::writeToDisk(restartFiles["deltaTemperature"], "deltaTemperature", *deltaTemperature);
+  PeridigmNS::State::writeToDisk(restartFiles["x"], "x", *x);
+  PeridigmNS::State::writeToDisk(restartFiles["u"], "u", *u);
+  PeridigmNS::State::writeToDisk(restartFiles["y"], "y", *y);
+  PeridigmNS::State::writeToDisk(restartFiles["v"], "v", *v);
+  PeridigmNS::State::writeToDisk(restartFiles["a"], "a", *a);
+  PeridigmNS::State::writeToDisk(restartFiles["force"], "force", *force);
+  PeridigmNS::State::writeToDisk(restartFiles["contactForce"], "contactForce", *contactForce);
+  PeridigmNS::State::writeToDisk(restartFiles["externalForce"], "externalForce", *externalForce);
+  PeridigmNS::State::writeToDisk(restartFiles["deltaU"], "deltaU", *deltaU);
+  PeridigmNS::State::writeToDisk(restartFiles["scratch"], "scratch", *scratch);
   //write block data
   std::vector<PeridigmNS::Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++){
     std::string blockName = blockIt->getName();
     blockIt->writeBlocktoDisk(blockName,restartFiles["path"].c_str());
   }
+
+  // The restart data are complete once the current time is in place
+  currentTime = solverParams->get("Final Time", 1.0);
+  if(peridigmComm->MyPID() == 0){
+    string temporaryFile = restartFiles["currentTime"] + ".tmp";
+    ofstream outputFile;
+    outputFile.open(temporaryFile.c_str());
+    outputFile << "Current time is " << "\n" << setprecision(17) << currentTime  << "\n";
+    outputFile.close();
+    TEUCHOS_TEST_FOR_TERMINATION(outputFile.fail(), "**** Error, unable to write restart time.\n");
+    int err = rename(temporaryFile.c_str(), restartFiles["currentTime"].c_str());
+    TEUCHOS_TEST_FOR_TERMINATION(err != 0, "**** Error, unable to complete restart folder.\n");
+  }
 }
 
 void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solverParams){
-  double* UpdatePtr;
-  double* oldPtr;
-  Epetra_Vector * vectorUpdate;
-  std::string trash, data;
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(analysisHasMultiphysics, "Error: Restart for Multiphysics is not implemented yet.\n");
+
   if(peridigmComm->MyPID() == 0){
     //read global current time
-    ifstream outputFile;
-    outputFile.open(restartFiles["currentTime"].c_str());
-    if (!outputFile.fail())
-    {
-      getline(outputFile,trash);
-      getline(outputFile,data);
-      outputFile.close();
-    }
-    currentTime = atof(data.c_str());
-  }
-  if(peridigmComm->MyPID() == 0){
+    std::string trash;
+    ifstream inputFile;
+    inputFile.open(restartFiles["currentTime"].c_str());
+    getline(inputFile,trash);
+    inputFile >> currentTime;
+    TEUCHOS_TEST_FOR_TERMINATION(inputFile.fail(), "**** Error, unable to read restart time.\n");
+    inputFile.close();
     cout <<"Reading restart. \n"<< endl;
     cout.flush();
     double timeInitial = solverParams->get("Initial Time", 0.0);
@@ -4580,100 +4602,36 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
       char timeError[251];
       sprintf(timeError, "Error, Incompatible times:\nPrevious restart final time is %e, while initial time is %e.\n",currentTime,timeInitial);
       TEUCHOS_TEST_FOR_EXCEPT_MSG(true,timeError);
-      MPI_Finalize();
-      exit(0);
     }
   }
-  if(analysisHasMultiphysics){
-    if(peridigmComm->MyPID() == 0){
-      TEUCHOS_TEST_FOR_EXCEPT_MSG(true,"Error: Restart for Multiphysics is not implemented yet.\n");
-      MPI_Finalize();
-      exit(0);
-    }
-  }else{
-    //read block ID
-    EpetraExt::MatrixMarketFileToVector(restartFiles["blockIDs"].c_str(), *oneDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    blockIDs->ExtractView(&oldPtr);
-    blas.COPY(blockIDs->MyLength(), UpdatePtr, oldPtr);
-    //read horizon for each point
-    EpetraExt::MatrixMarketFileToVector(restartFiles["horizon"].c_str(), *oneDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    horizon->ExtractView(&oldPtr);
-    blas.COPY(horizon->MyLength(), UpdatePtr, oldPtr);
-    //read cell volume
-    EpetraExt::MatrixMarketFileToVector(restartFiles["volume"].c_str(), *oneDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    volume->ExtractView(&oldPtr);
-    blas.COPY(volume->MyLength(), UpdatePtr, oldPtr);
-    //read density
-    EpetraExt::MatrixMarketFileToVector(restartFiles["density"].c_str(), *oneDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    density->ExtractView(&oldPtr);
-    blas.COPY(density->MyLength(), UpdatePtr, oldPtr);
-    //read change in temperature
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaTemperature"].c_str(), *oneDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    deltaTemperature->ExtractView(&oldPtr);
-    blas.COPY(deltaTemperature->MyLength(), UpdatePtr, oldPtr);
-  }
-    //read initial positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["x"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    x->ExtractView(&oldPtr);
-    blas.COPY(x->MyLength(), UpdatePtr, oldPtr);
-    //read displacement
-    EpetraExt::MatrixMarketFileToVector(restartFiles["u"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    u->ExtractView(&oldPtr);
-    blas.COPY(u->MyLength(), UpdatePtr, oldPtr);
-    //read current positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["y"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    y->ExtractView(&oldPtr);
-    blas.COPY(y->MyLength(), UpdatePtr, oldPtr);
-    //read velocities
-    EpetraExt::MatrixMarketFileToVector(restartFiles["v"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    v->ExtractView(&oldPtr);
-    blas.COPY(v->MyLength(), UpdatePtr, oldPtr);
-    //read accelerations
-    EpetraExt::MatrixMarketFileToVector(restartFiles["a"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    a->ExtractView(&oldPtr);
-    blas.COPY(a->MyLength(), UpdatePtr, oldPtr);
-    //read force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["force"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    force->ExtractView(&oldPtr);
-    blas.COPY(force->MyLength(), UpdatePtr, oldPtr);
-    //read contact force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["contactForce"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    contactForce->ExtractView(&oldPtr);
-    blas.COPY(contactForce->MyLength(), UpdatePtr, oldPtr);
-    vectorUpdate = 0;
-    UpdatePtr = 0;
-    oldPtr = 0;
-    //read external force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["externalForce"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    externalForce->ExtractView(&oldPtr);
-    blas.COPY(externalForce->MyLength(), UpdatePtr, oldPtr);
-    //read deltaU (increment in displacement)
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaU"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    deltaU->ExtractView(&oldPtr);
-    blas.COPY(deltaU->MyLength(), UpdatePtr, oldPtr);
-    //read scratch
-    EpetraExt::MatrixMarketFileToVector(restartFiles["scratch"].c_str(), *threeDimensionalMap, vectorUpdate);
-    vectorUpdate->ExtractView(&UpdatePtr);
-    scratch->ExtractView(&oldPtr);
-    blas.COPY(scratch->MyLength(), UpdatePtr, oldPtr);
-    //read block data
-    std::vector<PeridigmNS::Block>::iterator blockIt;
-    for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++){
-      std::string blockName = blockIt->getName();
-      blockIt->readBlockfromDisk(blockName,restartFiles["path"].c_str());
-    }
+
+  PeridigmNS::State::readFromDisk(restartFiles["blockIDs"], *blockIDs);
+  PeridigmNS::State::readFromDisk(restartFiles["horizon"], *horizon);
+  PeridigmNS::State::readFromDisk(restartFiles["volume"], *volume);
+  PeridigmNS::State::readFromDisk(restartFiles["density"], *density);
+  PeridigmNS::State::readFromDisk(restartFiles["temperature"], *temperature);
+  PeridigmNS::State::readFromDisk(restartFiles["fluxDivergence"], *fluxDivergence);
+  PeridigmNS::State::readFromDisk(restartFiles["deltaTemperature"], *deltaTemperature);
+  PeridigmNS::State::readFromDisk(restartFiles["x"], *x);
+  PeridigmNS::State::readFromDisk(restartFiles["u"], *u);
+  PeridigmNS::State::readFromDisk(restartFiles["y"], *y);
+  PeridigmNS::State::readFromDisk(restartFiles["v"], *v);
+  PeridigmNS::State::readFromDisk(restartFiles["a"], *a);
+  PeridigmNS::State::readFromDisk(restartFiles["force"], *force);
+  PeridigmNS::State::readFromDisk(restartFiles["contactForce"], *contactForce);
+  PeridigmNS::State::readFromDisk(restartFiles["externalForce"], *externalForce);
+  PeridigmNS::State::readFromDisk(restartFiles["deltaU"], *deltaU);
+  PeridigmNS::State::readFromDisk(restartFiles["scratch"], *scratch);
+  //read block data
+  std::vector<PeridigmNS::Block>::iterator blockIt;
+  for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++){
+    std::string blockName = blockIt->getName();
+    blockIt->readBlockfromDisk(blockName,restartFiles["path"].c_str());
+  }
+
+  // The contacts must be searched for in the configuration the analysis resumes from
+  if(analysisHasContact){
+    contactManager->importData(volume, y, v);
+    contactManager->rebalance(0);
+  }
 }
diff --git a/src/core/Peridigm_DataManager.hpp b/src/core/Peridigm_DataManager.hpp
index b324604..0962e84 100644
--- a/src/core/Peridigm_DataManager.hpp
+++ b/src/core/Peridigm_DataManager.hpp
@@ -174,14 +174,18 @@ public:
     stateN.swap(stateNP1);
   }
   void writeBlocktoDisk(std::string blockName,char const * path){
-    // StateNone is unaffected by restart so only StateN and StateNP1 are written
+    // StateNone is written too, it may hold results of the last step
+    if(!stateNONE.is_null())
+      stateNONE->writeStateData(stateNONE,"StateNone",blockName,path);
     getStateN()->writeStateData(getStateN(),"StateN",blockName,path);
     getStateNP1()->writeStateData(getStateNP1(),"StateNP1",blockName,path);
   }
   void readBlockfromDisk(std::string blockName,char const * path){
-    // StateNone is unaffected by restart so only StateN and StateNP1 are red
-    getStateN()->readStateData(getStateN(),"StateN",blockName,path);
-    getStateNP1()->readStateData(getStateNP1(),"StateNP1",blockName,path);
+    // The states were swapped at the end of the last step, go back to the order before the swap
+    if(!stateNONE.is_null())
+      stateNONE->readStateData(stateNONE,"StateNone",blockName,path);
+    getStateN()->readStateData(getStateN(),"StateNP1",blockName,path);
+    getStateNP1()->readStateData(getStateNP1(),"StateN",blockName,path);
   }
 
 protected:
diff --git a/src/core/Peridigm_State.cpp b/src/core/Peridigm_State.cpp
index 74d6cc6..dd9f98f 100644
--- a/src/core/Peridigm_State.cpp
+++ b/src/core/Peridigm_State.cpp
@@ -50,8 +50,10 @@
 #include <Epetra_Import.h>
 #include <Teuchos_Assert.hpp>
 #include <sstream>
+#include <cmath>
 #include <EpetraExt_MultiVectorOut.h>
 #include <EpetraExt_MultiVectorIn.h>
+#include <Epetra_Comm.h>
 using namespace std;
 
 void PeridigmNS::State::allocatePointData(PeridigmField::Length length,
@@ -150,59 +152,74 @@ void PeridigmNS::State::copyLocallyOwnedDataFromState(Teuchos::RCP<PeridigmNS::S
   }
 }
 
+void PeridigmNS::State::writeToDisk(std::string fileName, std::string name, const Epetra_MultiVector& data)
+{
+  int err = EpetraExt::MultiVectorToMatrixMarketFile(fileName.c_str(), data, name.c_str(), "", true);
+  TEUCHOS_TEST_FOR_TERMINATION(err != 0, "**** Error, unable to write restart file " + fileName + ".\n");
+
+  // Errors may go unnoticed while the file is written, so compare it with the original data
+  // All processors read the file, wait until it is complete
+  data.Comm().Barrier();
+  Epetra_MultiVector fileData(data);
+  readFromDisk(fileName, fileData);
+  for(int iVec=0 ; iVec<data.NumVectors() ; ++iVec){
+    for(int i=0 ; i<data.MyLength() ; ++i){
+      double written = data[iVec][i], found = fileData[iVec][i];
+      TEUCHOS_TEST_FOR_TERMINATION(written != found && !(std::isnan(written) && std::isnan(found)),
+                                   "**** Error, restart file " + fileName + " was not written properly.\n");
+    }
+  }
+}
+
+void PeridigmNS::State::readFromDisk(std::string fileName, Epetra_MultiVector& data)
+{
+  Epetra_MultiVector* fileData = 0;
+  int err = EpetraExt::MatrixMarketFileToMultiVector(fileName.c_str(), data.Map(), fileData);
+  TEUCHOS_TEST_FOR_TERMINATION(err != 0 || fileData == 0, "**** Error, unable to read restart file " + fileName + ".\n");
+  TEUCHOS_TEST_FOR_TERMINATION(fileData->NumVectors() != data.NumVectors(), "**** Error, unexpected contents in restart file " + fileName + ".\n");
+  data = *fileData;
+  delete fileData;
+}
+
 void PeridigmNS::State::writeStateData(Teuchos::RCP<PeridigmNS::State> source,  std::string stateName,  std::string blockName,  char const * path)
 {
-  char VectorName[100];
   SetRestartFiles(stateName, blockName, path);
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
-      sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
-      EpetraExt::MultiVectorToMatrixMarketFile(restartStateFiles[VectorName].c_str(),
-                                               *(source->getPointMultiVector(i)),VectorName,"",true);
+      std::string vectorName = blockName + stateName + "_Element" + std::to_string(i);
+      writeToDisk(restartStateFiles[vectorName], vectorName, *(source->getPointMultiVector(i)));
     }
   }
   if(!bondData.is_null()){
-    sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
-    EpetraExt::MultiVectorToMatrixMarketFile(restartStateFiles[VectorName].c_str(),
-                                             *(source->getBondMultiVector()),VectorName,"",true);
+    std::string vectorName = blockName + stateName;
+    writeToDisk(restartStateFiles[vectorName], vectorName, *(source->getBondMultiVector()));
   }
 }
 void PeridigmNS::State::SetRestartFiles( std::string stateName, std::string blockName, char const * path)
 {
-  char pathname[100], VectorName[50];
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
-      sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
-      sprintf(pathname,"%s/pointData_%s.mat",path,VectorName);
-      restartStateFiles[VectorName] = pathname;
+      std::string vectorName = blockName + stateName + "_Element" + std::to_string(i);
+      restartStateFiles[vectorName] = std::string(path) + "/pointData_" + vectorName + ".mat";
     }
   }
   if(!bondData.is_null()){
-    sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
-    sprintf(pathname,"%s/BondData_%s.mat",path,VectorName);
-    restartStateFiles[VectorName] = pathname;
+    std::string vectorName = blockName + stateName;
+    restartStateFiles[vectorName] = std::string(path) + "/BondData_" + vectorName + ".mat";
   }
 }
 
 
 void PeridigmNS::State::readStateData(Teuchos::RCP<PeridigmNS::State> source,  std::string stateName,  std::string blockName, char const * path)
 {
-  char VectorName[100];
-  Epetra_MultiVector * MultiVectorUpdate;
   SetRestartFiles(stateName, blockName, path);
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
-    if(!pointData[i].is_null()){
-      sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
-      EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate);
-      copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *pointData[i] );
-    }
+    if(!pointData[i].is_null())
+      readFromDisk(restartStateFiles[blockName + stateName + "_Element" + std::to_string(i)], *pointData[i]);
   }
 
-  if(!bondData.is_null()){
-    sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
-    EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate);
-    copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *bondData );
-  }
+  if(!bondData.is_null())
+    readFromDisk(restartStateFiles[blockName + stateName], *bondData);
 }
 
 void PeridigmNS::State::copyLocallyOwnedMultiVectorData(Epetra_MultiVector& source, Epetra_MultiVector& target)
diff --git a/src/core/Peridigm_State.hpp b/src/core/Peridigm_State.hpp
index daf907e..306fd9a 100644
--- a/src/core/Peridigm_State.hpp
+++ b/src/core/Peridigm_State.hpp
@@ -123,6 +123,12 @@ public:
   //! Copies data from a different state object based on global IDs; functions only if all the local IDs in the target map exist in and are locally owned in the source map.
   void copyLocallyOwnedDataFromState(Teuchos::RCP<PeridigmNS::State> source);
 
+  //! Write an Epetra_MultiVector to a restart file and make sure that it can be read back.
+  static void writeToDisk(std::string fileName, std::string name, const Epetra_MultiVector& data);
+
+  //! Read an Epetra_MultiVector from a restart file.
+  static void readFromDisk(std::string fileName, Epetra_MultiVector& data);
+
   //! Set restart files for state data
   void SetRestartFiles( std::string stateName, std::string blockName, char const * path);
 
-- 
2.43.0


From 763c0034c0a4b83ea9af4a516e77c0669a5f837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:40 +0000
Subject: [PATCH 22/27] fix: end the run when output data could not be written
 to disk

The netCDF library drops errors of the individual write operations, so a run
on a full disk reported success although the last output was missing.
---
 src/io/Peridigm_OutputManager_ExodusII.cpp | 13 +++++++++++++
 src/io/Peridigm_OutputManager_ExodusII.hpp |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/io/Peridigm_OutputManager_ExodusII.cpp b/src/io/Peridigm_OutputManager_ExodusII.cpp
index ea5fe7d..dc2d612 100644
--- a/src/io/Peridigm_OutputManager_ExodusII.cpp
+++ b/src/io/Peridigm_OutputManager_ExodusII.cpp
@@ -44,6 +44,7 @@
 //@HEADER
 
 #include <fstream>
+#include <cerrno>
 #include <time.h>
 #include <vector>
 #include <string>
@@ -249,6 +250,7 @@ void PeridigmNS::OutputManager_ExodusII::write(Teuchos::RCP< std::vector<Peridig
 
   // Open exodus database for writing
   float version;
+  errno = 0;
   file_handle = ex_open(filename.str().c_str(), EX_WRITE, &CPU_word_size, &IO_word_size, &version);
   if(file_handle < 0) reportExodusError(file_handle, "write", "ex_open");
 
@@ -464,6 +466,7 @@ void PeridigmNS::OutputManager_ExodusII::write(Teuchos::RCP< std::vector<Peridig
   if(retval!= 0) reportExodusError(retval, "write", "ex_update");
   retval = ex_close(file_handle);
   if(retval!= 0) reportExodusError(retval, "write", "ex_close");
+  checkForLostData("write");
 }
 
 void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP< std::vector<PeridigmNS::Block> > blocks) {
@@ -538,6 +541,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
   CPU_word_size = IO_word_size = sizeof(double);
 
   // Initialize exodus database; Overwrite any existing file with this name
+  errno = 0;
   file_handle = ex_create(filename.str().c_str(),EX_CLOBBER,&CPU_word_size,&IO_word_size);
   if(file_handle < 0) reportExodusError(file_handle, "OutputManager_ExodusII", "ex_create");
 
@@ -875,6 +879,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
   if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_update");
   retval = ex_close(file_handle);
   if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_close");
+  checkForLostData("initializeExodusDatabase");
 
   // Clean up
   if(node_set_names != NULL){
@@ -940,6 +945,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabaseWithOnlyGlobalD
   CPU_word_size = IO_word_size = sizeof(double);
 
   // Initialize exodus database; Overwrite any existing file with this name
+  errno = 0;
   file_handle = ex_create(filename.str().c_str(),EX_CLOBBER,&CPU_word_size,&IO_word_size);
   if(file_handle < 0) reportExodusError(file_handle, "OutputManager_ExodusII", "ex_create");
 
@@ -1041,6 +1047,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabaseWithOnlyGlobalD
   if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_update");
   retval = ex_close(file_handle);
   if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_close");
+  checkForLostData("initializeExodusDatabase");
 
   // Clean up
   if(global_var_names != NULL){
@@ -1063,6 +1070,12 @@ void PeridigmNS::OutputManager_ExodusII::reportExodusError(int errorCode, const
   }
 }
 
+void PeridigmNS::OutputManager_ExodusII::checkForLostData(const char *methodName) {
+  // The netCDF library ignores errors of individual write operations, but they can be recognized by errno
+  if(errno == ENOSPC || errno == EDQUOT || errno == EIO || errno == EFBIG || errno == EROFS)
+    reportExodusError(-errno, methodName, "data could not be written to disk");
+}
+
 void PeridigmNS::OutputManager_ExodusII::writeQARecord(int exoid)
 {
   // Get the current system date and time
diff --git a/src/io/Peridigm_OutputManager_ExodusII.hpp b/src/io/Peridigm_OutputManager_ExodusII.hpp
index dd08058..7416201 100644
--- a/src/io/Peridigm_OutputManager_ExodusII.hpp
+++ b/src/io/Peridigm_OutputManager_ExodusII.hpp
@@ -97,6 +97,9 @@ namespace PeridigmNS {
     //! Error & Warning reporting tool for calls to ExodusII API
     void reportExodusError(int errorCode, const char *methodName, const char *exodusMethodName);
 
+    //! Report an error if data did not reach the disk since errno was cleared
+    void checkForLostData(const char *methodName);
+
     //! Valid Teuchos::ParameterList 
     Teuchos::ParameterList getValidParameterList();
 
-- 
2.43.0


From 1d879149d1999bb8c2842993fb60b7658cabb0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:35 +0000
Subject: [PATCH 23/27] fix: end the run when memory is exhausted in the linear
 solver

The exception was taken for a solver that did not converge, on one processor
only, which then went on alone.
---
 src/core/Peridigm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index a05a675..33c6ef0 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -3390,6 +3390,10 @@ Belos::ReturnType PeridigmNS::Peridigm::quasiStaticsSolveSystem(Teuchos::RCP<Epe
   try{
     isConverged = belosSolver->solve();
   }
+  catch(const std::bad_alloc &e){
+    // the other processors are still in the solver, there is no way to go on
+    throw;
+  }
   catch(const std::exception &e){
     if(peridigmComm->MyPID() == 0)
       cout << "Warning:  Belos linear solver aborted with " << Teuchos::typeName(e) << "." << endl; // can dump details by printing e.what()
-- 
2.43.0


From 51ba1c21680fffde28f6b5c2813507b203ef9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:14 +0000
Subject: [PATCH 24/27] fix: set up the grid description on processors that
 start without points

With fewer grid points than processors the internal mesh generator left the
description of an empty processor unset, and the load balancing failed there
while the other processors kept waiting.
---
 src/io/mesh_input/quick_grid/QuickGrid.cxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/io/mesh_input/quick_grid/QuickGrid.cxx b/src/io/mesh_input/quick_grid/QuickGrid.cxx
index e361074..937a64d 100644
--- a/src/io/mesh_input/quick_grid/QuickGrid.cxx
+++ b/src/io/mesh_input/quick_grid/QuickGrid.cxx
@@ -1919,7 +1919,7 @@ QuickGridData getDiscretization(size_t rank, QuickGridMeshGenerationIterator &ce
     int sizeNeighborhoodList = 0;
     MPI_Recv(&numPoints, 1, MPI_INT, 0, numPointsTag, MPI_COMM_WORLD, &status);
     ack = 0;
-    if (numPoints > 0){
+    if (numPoints >= 0){
       QuickGridData   gData = QUICKGRID::allocatePdGridData(numPoints,dimension);
       std::shared_ptr<double> g=gData.myX;
       std::shared_ptr<double> cellVolume=gData.cellVolume;
@@ -1944,9 +1944,6 @@ QuickGridData getDiscretization(size_t rank, QuickGridMeshGenerationIterator &ce
       gridData = gData;
 
     }
-    else if (numPoints == 0){
-      MPI_Send(&ack, 1, MPI_INT, 0, ackTag, MPI_COMM_WORLD);
-    }
     else{
       MPI_Finalize();
       std::exit(1);
-- 
2.43.0


From 9e8a200d56e0b270f6ace1cec37ce7fe85195c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:14 +0000
Subject: [PATCH 25/27] fix: define global output variables in the files of
 processors without points

The variables were written there although they had not been defined, which
ended the whole run.
---
 src/io/Peridigm_OutputManager_ExodusII.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/Peridigm_OutputManager_ExodusII.cpp b/src/io/Peridigm_OutputManager_ExodusII.cpp
index dc2d612..8c9995a 100644
--- a/src/io/Peridigm_OutputManager_ExodusII.cpp
+++ b/src/io/Peridigm_OutputManager_ExodusII.cpp
@@ -795,7 +795,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
   // Write global var info
   int num_global_vars = global_output_field_map.size();
   char **global_var_names = NULL;
-  if(num_global_vars > 0 && haveData){
+  if(num_global_vars > 0){
     char **global_var_names = new char*[num_global_vars];
     for(i=0;i<num_global_vars;i++) global_var_names[i] = new char[MAX_STR_LENGTH+1]; // MAX_STR_LENGTH defined in ExodusII.h
     for(std::map<string,int>::iterator it=global_output_field_map.begin() ; it != global_output_field_map.end(); it++ )
-- 
2.43.0


From 41dd4be1bf0eda3b312f96e40c4eb97f5839f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:18:09 +0000
Subject: [PATCH 26/27] fix: end with an error when the points cannot be
 distributed to the processors

A failing partition ended the job with the exit status of a successful one,
and a failing migration of the points went unnoticed.
---
 src/io/pdneigh/PdZoltan.cxx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/io/pdneigh/PdZoltan.cxx b/src/io/pdneigh/PdZoltan.cxx
index a334005..4521292 100644
--- a/src/io/pdneigh/PdZoltan.cxx
+++ b/src/io/pdneigh/PdZoltan.cxx
@@ -287,8 +287,10 @@ QuickGridData& getLoadBalancedDiscretization(QuickGridData& pdGridData){
           &exportProcs,       /* Process to which I send each of the vertices */
           &exportToPart       /* Partition to which each vertex will belong */
       );
+  if (zoltanErr != ZOLTAN_OK)
+    throw std::runtime_error("PdQuickGrid::getLoadBalancedDiscretization -- Zoltan_LB_Partition Failure.");
 //  std::cout << "getLoadBalancedDiscretization(PdGridData& pdGridData) E"  << std::endl; std::cout.flush();
-  Zoltan_Migrate
+  zoltanErr = Zoltan_Migrate
   (
       zoltan,
       numImport,
@@ -302,6 +304,8 @@ QuickGridData& getLoadBalancedDiscretization(QuickGridData& pdGridData){
       exportProcs,
       exportToPart
   );
+  if (zoltanErr < ZOLTAN_OK)
+    throw std::runtime_error("PdQuickGrid::getLoadBalancedDiscretization -- Zoltan_Migrate Failure.");
 //  std::cout << "getLoadBalancedDiscretization(PdGridData& pdGridData) F"  << std::endl; std::cout.flush();
   /*
    * Now insure that all processors were unpacked
@@ -322,12 +326,6 @@ QuickGridData& getLoadBalancedDiscretization(QuickGridData& pdGridData){
   /* Free memory allocated for load-balancing results by Zoltan */
   Zoltan_LB_Free_Part(&importGlobalGids, &importLocalGids, &importProcs, &importToPart);
   Zoltan_LB_Free_Part(&exportGlobalGids, &exportLocalGids, &exportProcs, &exportToPart);
-  if (zoltanErr != ZOLTAN_OK){
-    std::cerr << "PdQuickGrid::getLoadBalancedDiscretization -- Zoltan_LB_Partition Failure.  Abort " << std::endl;
-    MPI_Finalize();
-//    Zoltan_Destroy(&zoltan);
-    exit(0);
-  }
 
 //  Zoltan_Destroy(&zoltan);
 //  std::cout << "getLoadBalancedDiscretization(PdGridData& pdGridData) Finish" << std::endl;
-- 
2.43.0


From 91d1641ac6a2ad1fc195824df93aee746eb261ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:34:52 +0000
Subject: [PATCH 27/27] fix: evaluate boundary conditions at the current time
 from a value of zero

A condition whose expression assigns its value only under a condition kept
the value of the previous time, because the result variable was reset before
the evaluation at the previous time only.
---
 src/core/Peridigm_BoundaryCondition.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index 5ab2379..ae77a00 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -118,7 +118,9 @@ void PeridigmNS::BoundaryCondition::evaluateParser(const int & localNodeID, doub
     success = rtcFunction->execute();
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
-  // evaluate at current time
+  // evaluate at current time, again starting from a return value of 0.0
+  if(success)
+    success = rtcFunction->varValueFill(4, 0.0);
   if(success)
     success = rtcFunction->varValueFill(3, timeCurrent);
   if(success)
-- 
2.43.0

