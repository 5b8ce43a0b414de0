From 1eaf8ddadf8bae697d59b8478359bbbe625a3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 01/20] fix: setEdgeSource leaves the graph untouched when the
 new source is an Action

---
 gegelatilib/src/tpg/tpgGraph.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..20c0e82 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -286,15 +286,18 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
     auto iterNewSrc = findVertex(&newSrc);
     auto iterEdge = findEdge(&edge);
     if (iterNewSrc != this->vertices.end() && iterEdge != this->edges.end()) {
+        // Register the edge to the new source first: this throws, and must
+        // leave the graph untouched, if the new source is an Action.
+        (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
         // Unregister the edge from the old source
         const TPG::TPGVertex* oldSrc = iterEdge->get()->getSource();
         auto iterOldSrc = findVertex(oldSrc);
         // finding the vertex should not fail. Otherwise, the exception for
         // next line would be well deserved since it means an edge in the
         // graph is connected to a vertex not in the graph.
-        (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
-        // Register the edge to the new source
-        (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+        if (iterOldSrc != iterNewSrc) {
+            (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+        }
         // Set the destination
         iterEdge->get()->setSource(*(iterNewSrc));
         return true;
-- 
2.43.0


From f1093df2c1d72efa9c73a49323901bcf494767a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 02/20] fix: equal infinite results are identical in
 Archive::areProgramResultsUnique

---
 gegelatilib/src/archive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 03448ee..3c6e428 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -173,7 +173,10 @@ bool Archive::areProgramResultsUnique(
             auto iter = hashesAndResults.find(recording.dataHash);
             if (iter != hashesAndResults.end()) {
                 // Cases 2 & 3
-                if (std::abs(iter->second - recording.result) <= tau) {
+                // (equality is checked for infinite results, whose difference
+                // is not a number)
+                if (iter->second == recording.result ||
+                    std::abs(iter->second - recording.result) <= tau) {
                     // results are equivalent
                     isIdentical = true;
                 }
-- 
2.43.0


From 534623915183ce46bcd0de5e28490569bea2697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:22 +0000
Subject: [PATCH 03/20] fix: compare every constant accessed by an operand in
 Program::hasIdenticalBehavior

---
 gegelatilib/src/program/program.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index f098b29..6c70006 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -262,17 +262,24 @@ bool Program::Program::hasIdenticalBehavior(const Program& other) const
                      operandIdx < instruction.getNbOperands(); operandIdx++) {
                     // Is the operand from the Constant data source.
                     if (thisLine.getOperand(operandIdx).first == 1) {
-                        // Check equality of constants
-                        Data::Constant thisCste =
-                            this->getConstantAt(this->constants.scaleLocation(
-                                thisLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        Data::Constant otherCste =
-                            other.getConstantAt(other.constants.scaleLocation(
-                                otherLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        if (thisCste != otherCste) {
-                            return false;
+                        // Check equality of all constants accessed by the
+                        // operand (several for arrays of constants).
+                        const std::type_info& type =
+                            instruction.getOperandTypes().at(operandIdx);
+                        const std::type_info& operandType =
+                            this->constants.canHandle(type)
+                                ? type
+                                : typeid(Data::Constant);
+                        uint64_t address = this->constants.scaleLocation(
+                            thisLine.getOperand(operandIdx).second,
+                            operandType);
+                        for (size_t cstIdx :
+                             this->constants.getAddressesAccessed(operandType,
+                                                                  address)) {
+                            if (this->getConstantAt(cstIdx) !=
+                                other.getConstantAt(cstIdx)) {
+                                return false;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From df7278452b595fbcdc7ba42101fea527e4d573bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 04/20] fix: invalidate the cached hash when assigning a
 PrimitiveTypeArray

---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..ef697e5 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..b9a09b5 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From c5b4657d7e29689c23a1c69580733d294f95e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 05/20] fix: combining classification results keeps the score
 of a class that was never evaluated

---
 gegelatilib/src/learn/classificationEvaluationResult.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..b055360 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,6 +65,13 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
+            // Nothing to combine for a class that was never evaluated.
+            if (this->nbEvaluationPerClass.at(idx) +
+                    otherEval.nbEvaluationPerClass.at(idx) ==
+                0) {
+                continue;
+            }
+
             // Weighted sum of scores.
             this->scorePerClass.at(idx) =
                 this->scorePerClass.at(idx) *
-- 
2.43.0


From 3c96fba561f6f0a2e03b467032a0381ee93fb4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 06/20] fix: updateEvaluationRecords accepts empty results

---
 gegelatilib/src/learn/learningAgent.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..b33774e 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -377,6 +377,15 @@ void Learn::LearningAgent::updateEvaluationRecords(
     }
 
     { // Update bestRoot
+        if (results.empty()) {
+            // All roots were removed: forget the bestRoot if it was one of them
+            if (this->bestRoot.first != nullptr &&
+                !this->tpg->hasVertex(*this->bestRoot.first)) {
+                this->bestRoot = {nullptr, nullptr};
+            }
+            return;
+        }
+
         auto iterator = --results.end();
         const std::shared_ptr<EvaluationResult> evaluation = iterator->first;
         const TPG::TPGVertex* candidate = iterator->second;
-- 
2.43.0


From e078519bf5756f51e7ce51ea661da5b47cc18605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 07/20] fix: champions are not picked beyond the roots when no
 root is deleted

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..d8833b2 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -192,6 +192,7 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
+             i < roots.size() &&
              i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
              i++) {
             champions.emplace_back(roots[i]);
-- 
2.43.0


From ecb70ddcde4a4a6464e70e481fad9eec5247224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 08/20] fix: forget the recorded results of vertices that left
 the graph

---
 gegelatilib/src/learn/learningAgent.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index b33774e..5a63072 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -36,6 +36,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <inttypes.h>
 #include <queue>
 
@@ -78,8 +79,8 @@ void Learn::LearningAgent::init(uint64_t seed)
     // Clear the archive
     this->archive.clear();
 
-    // Clear the best root
-    this->bestRoot = {nullptr, nullptr};
+    // Clear the best root and the results of the previous graph
+    this->forgetPreviousResults();
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
@@ -229,6 +230,17 @@ void Learn::LearningAgent::trainOneGeneration(uint64_t generationNumber)
         logger.get().logNewGeneration(generationNumber);
     }
 
+    // Without any root team, populateTPG builds a new graph: results recorded
+    // for the vertices of the previous one are obsolete.
+    auto roots = this->tpg->getRootVertices();
+    if (std::none_of(roots.begin(), roots.end(),
+                     [](const TPG::TPGVertex* root) {
+                         return dynamic_cast<const TPG::TPGTeam*>(root) !=
+                                nullptr;
+                     })) {
+        this->forgetPreviousResults();
+    }
+
     // Populate Sequentially
     Mutator::TPGMutator::populateTPG(*this->tpg, this->archive,
                                      this->params.mutation, this->rng,
@@ -436,6 +448,7 @@ void Learn::LearningAgent::keepBestPolicy()
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    this->resultsPerRoot.erase(root);
                 }
             }
         }
-- 
2.43.0


From 48b02469453fb15db97c5380939e31c3ba7f3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 09/20] fix: champions removed from the graph are no longer
 opponents

---
 .../include/learn/adversarialLearningAgent.h  | 21 ++++++++++++++++
 .../src/learn/adversarialLearningAgent.cpp    | 25 +++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 0af9f3a..2ee79b3 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -119,6 +119,14 @@ namespace Learn {
                           const TPG::TPGVertex*>& results,
             std::map<uint64_t, Archive*>& archiveMap) override;
 
+        /**
+         * \brief Removes from the champions the vertices that are no longer in
+         * the given TPGGraph.
+         *
+         * \param[in] graph the TPGGraph in which champions must be.
+         */
+        void removeLostChampions(const TPG::TPGGraph& graph);
+
       public:
         /**
          * \brief Constructor for AdversarialLearningAgent.
@@ -199,6 +207,19 @@ namespace Learn {
             uint64_t generationNumber, LearningMode mode,
             LearningEnvironment& le) const override;
 
+        /**
+         * \brief Specialization of the decimateWorstRoots method.
+         *
+         * In addition to the behavior of the inherited method, champions whose
+         * vertex was removed from the TPGGraph are forgotten.
+         *
+         * \param[in,out] results a multimap containing root TPGVertex
+         * associated to their score during an evaluation.
+         */
+        void decimateWorstRoots(
+            std::multimap<std::shared_ptr<EvaluationResult>,
+                          const TPG::TPGVertex*>& results) override;
+
         /**
          * \brief Puts all roots into AdversarialJob to be able to use them in
          * simulation later. The difference with the base learning agent
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index d8833b2..5a53fab 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -34,6 +34,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <fstream>
 #include <memory>
 
@@ -122,6 +123,27 @@ void Learn::AdversarialLearningAgent::evaluateAllRootsInParallelCompileResults(
     this->mergeArchiveMap(archiveMap);
 }
 
+void Learn::AdversarialLearningAgent::removeLostChampions(
+    const TPG::TPGGraph& graph)
+{
+    champions.erase(std::remove_if(champions.begin(), champions.end(),
+                                   [&graph](const TPG::TPGVertex* champion) {
+                                       return !graph.hasVertex(*champion);
+                                   }),
+                    champions.end());
+}
+
+void Learn::AdversarialLearningAgent::decimateWorstRoots(
+    std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>&
+        results)
+{
+    ParallelLearningAgent::decimateWorstRoots(results);
+
+    // Since root actions are never removed, more teams than those outside of
+    // the champions may have been.
+    removeLostChampions(*tpg);
+}
+
 std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
     evaluateJob(TPG::TPGExecutionEngine& tee, const Job& job,
                 uint64_t generationNumber, Learn::LearningMode mode,
@@ -189,6 +211,9 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
 
     auto roots = tpgGraph->getRootVertices();
 
+    // forget champions that were removed from the graph
+    removeLostChampions(*tpgGraph);
+
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
-- 
2.43.0


From 0190412c44f322bd6a423ba85e7597382d89bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 10/20] fix: the queue of jobs is only accessed under its lock

---
 gegelatilib/src/learn/parallelLearningAgent.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..a306b88 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -108,15 +108,14 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
         this->tpg->getFactory().createTPGExecutionEngine(privateEnv, NULL);
 
-    int i = 0;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
-        i++;
-        bool doProcess = false;
+    bool doProcess;
+    do {
+        doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            if (!jobsToProcess.empty()) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
@@ -125,7 +124,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
         // Processing to do?
         if (doProcess) {
-            doProcess = false;
             // Dedicated archive for the root
             Archive* temporaryArchive = NULL;
             if (mode == LearningMode::TRAINING) {
@@ -154,7 +152,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                 }
             }
         }
-    }
+    } while (doProcess);
 
     // Clean up
     if (!useMainEnvironment) {
-- 
2.43.0


From b1b92cf37b11fd6fb991c6bffe725cffea3e4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 11/20] fix: a cycle without root is not reported as a success

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..33317c6 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,7 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 7c110ca26b53fec371a19a823ec33de91498af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 12/20] fix: reject initial graphs with fewer than two edges
 per team

---
 gegelatilib/src/mutator/tpgMutator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gegelatilib/src/mutator/tpgMutator.cpp b/gegelatilib/src/mutator/tpgMutator.cpp
index cf6be20..25eec8b 100644
--- a/gegelatilib/src/mutator/tpgMutator.cpp
+++ b/gegelatilib/src/mutator/tpgMutator.cpp
@@ -66,6 +66,11 @@ void Mutator::TPGMutator::initRandomTPG(
     if (params.tpg.nbActions < 2) {
         throw std::runtime_error("A TPG with a single action makes no sense.");
     }
+    if (params.tpg.maxInitOutgoingEdges < 2) {
+        throw std::runtime_error("Each initial team is connected to two "
+                                 "actions: the maximum initial number of "
+                                 "outgoing edges cannot be lower than 2.");
+    }
     // Empty graph
     graph.clear();
 
-- 
2.43.0


From 30337052fbdfe9c3ab333cf93cffeafb982b96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 13/20] fix: keepBestPolicy also removes a single remaining
 root leading to the best one

---
 gegelatilib/src/learn/learningAgent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 5a63072..60970be 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -443,14 +443,16 @@ void Learn::LearningAgent::keepBestPolicy()
         auto bestRootVertex = this->bestRoot.first;
 
         // Remove all but the best root from the tpg
-        while (this->tpg->getNbRootVertices() != 1) {
-            auto roots = this->tpg->getRootVertices();
+        // (the best root may be reachable from another root, removed first)
+        auto roots = this->tpg->getRootVertices();
+        while (roots.size() != 1 || roots.front() != bestRootVertex) {
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
                     this->resultsPerRoot.erase(root);
                 }
             }
+            roots = this->tpg->getRootVertices();
         }
     }
 }
-- 
2.43.0


From ad6039ea44a48f5e956f4905c1bc1374c85e1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 14/20] fix: identifiers of data handlers created in several
 threads are distinct

---
 gegelatilib/include/data/dataHandler.h | 3 ++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..9ed7f25 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -57,7 +58,7 @@ namespace Data {
         /**
          * \brief Static count used to initialize the id of each DataHandler.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..c5ebd79 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -39,7 +39,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count{0};
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From 690230e4bc3a8fa4b39b8ab809a36afffc5ac41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 15/20] fix: the cached address spaces of data handlers are
 accessed under a lock

---
 gegelatilib/include/data/array2DWrapper.h |  5 ++++
 gegelatilib/include/data/arrayWrapper.h   | 30 +++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..6b3e682 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -85,6 +85,9 @@ namespace Data {
         mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
             cachedAddressSpace;
 
+        /// Mutex protecting cachedAddressSpace.
+        mutable CacheMutex cacheMutex;
+
       protected:
         /// Number of columns of the 2D array.
         size_t width;
@@ -217,6 +220,8 @@ namespace Data {
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
+        std::lock_guard<std::mutex> lock(this->cacheMutex.mutex);
+
         // Has the result been cached
         auto iter = this->cachedAddressSpace.find(type);
         if (iter != this->cachedAddressSpace.end()) {
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..fbdc8b0 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -39,6 +39,7 @@
 
 #include <functional>
 #include <map>
+#include <mutex>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -52,6 +53,29 @@
 
 namespace Data {
 
+    /**
+     * \brief Mutex of an object whose copies each have their own mutex.
+     */
+    struct CacheMutex
+    {
+        /// The mutex.
+        std::mutex mutex;
+
+        /// Default constructor.
+        CacheMutex() = default;
+
+        /// The mutex itself is not copied.
+        CacheMutex(const CacheMutex&)
+        {
+        }
+
+        /// The mutex itself is not copied.
+        CacheMutex& operator=(const CacheMutex&)
+        {
+            return *this;
+        }
+    };
+
     /**
      * DataHandler for manipulating arrays of primitive data type.
      *
@@ -87,6 +111,10 @@ namespace Data {
          */
         mutable std::map<std::type_index, size_t> cachedAddressSpace;
 
+        /// Mutex protecting cachedAddressSpace: DataHandlers are shared between
+        /// the threads mutating Programs.
+        mutable CacheMutex cacheMutex;
+
       protected:
         /**
          * \brief Number of elements contained pointer vector.
@@ -273,6 +301,8 @@ namespace Data {
     template <class T>
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
+        std::lock_guard<std::mutex> lock(this->cacheMutex.mutex);
+
         // Has the addresSpaceSize been cached
         auto iter = this->cachedAddressSpace.find(type);
         if (iter != this->cachedAddressSpace.end()) {
-- 
2.43.0


From 1a9f87dd6d5c65b2a694b7f758945b1cfd6127d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 16/20] fix: learning environments are cloned before any thread
 uses the original

---
 .../include/learn/parallelLearningAgent.h     |  7 +++--
 .../src/learn/parallelLearningAgent.cpp       | 29 +++++++++----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..6e7ae0f 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment the LearningEnvironment used
+         * by this thread, and by this thread only.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index a306b88..ffcd1cf 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -92,17 +92,11 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
-
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
@@ -135,7 +129,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -153,11 +147,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     } while (doProcess);
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -244,6 +233,13 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the learningEnvironment for the threads, before any of them (the
+    // main one included) uses it.
+    std::vector<std::unique_ptr<LearningEnvironment>> environments;
+    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+        environments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
@@ -251,14 +247,15 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*environments.at(i))));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From 0d7e3f60f23e0dee217e6ef389e867bbebd0bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 17/20] fix: parameters larger than 32 bits can be reloaded

---
 gegelatilib/src/file/parametersParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..3434352 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -102,19 +102,19 @@ void File::ParametersParser::setParameterFromString(
     Json::Value const& value)
 {
     if (param == "nbActions") {
-        params.mutation.tpg.nbActions = (size_t)value.asUInt();
+        params.mutation.tpg.nbActions = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRoots") {
-        params.mutation.tpg.nbRoots = (size_t)value.asUInt();
+        params.mutation.tpg.nbRoots = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxInitOutgoingEdges") {
-        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxOutgoingEdges") {
-        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "pEdgeDeletion") {
@@ -143,7 +143,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxProgramSize") {
-        params.mutation.prog.maxProgramSize = (size_t)value.asUInt();
+        params.mutation.prog.maxProgramSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "pDelete") {
@@ -163,7 +163,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "nbProgramConstant") {
-        params.nbProgramConstant = (size_t)value.asUInt();
+        params.nbProgramConstant = (size_t)value.asUInt64();
         return;
     }
     if (param == "pConstantMutation") {
@@ -179,7 +179,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "archiveSize") {
-        params.archiveSize = (size_t)value.asUInt();
+        params.archiveSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "archivingProbability") {
@@ -207,15 +207,15 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxNbEvaluationPerPolicy") {
-        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt();
+        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRegisters") {
-        params.nbRegisters = (size_t)value.asUInt();
+        params.nbRegisters = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbThreads") {
-        params.nbThreads = (size_t)value.asUInt();
+        params.nbThreads = (size_t)value.asUInt64();
         return;
     }
     if (param == "doValidation") {
-- 
2.43.0


From 8321cf9ef8609a7f3a4a5e23299be64c4740edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 18/20] fix: the copy of an environment no longer references
 the registers of the original

---
 gegelatilib/include/environment.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/gegelatilib/include/environment.h b/gegelatilib/include/environment.h
index a280a74..8b3846d 100644
--- a/gegelatilib/include/environment.h
+++ b/gegelatilib/include/environment.h
@@ -224,6 +224,33 @@ class Environment
             this->fakeDataSources.push_back(elem);
     };
 
+    /**
+     * \brief Copy constructor.
+     *
+     * The fakeDataSources of the copy reference its own registers and
+     * constants, not the ones of the copied Environment.
+     *
+     * \param[in] other The copied Environment.
+     */
+    Environment(const Environment& other)
+        : instructionSet{other.instructionSet}, dataSources{other.dataSources},
+          nbRegisters{other.nbRegisters}, nbConstants{other.nbConstants},
+          fakeRegisters(other.fakeRegisters),
+          fakeConstants(other.fakeConstants),
+          nbInstructions{other.nbInstructions},
+          maxNbOperands{other.maxNbOperands},
+          nbDataSources{other.nbDataSources},
+          largestAddressSpace{other.largestAddressSpace},
+          lineSize{other.lineSize}
+    {
+        this->fakeDataSources.push_back(this->fakeRegisters);
+        if (this->nbConstants > 0) {
+            this->fakeDataSources.push_back(this->fakeConstants);
+        }
+        for (auto& elem : this->dataSources)
+            this->fakeDataSources.push_back(elem);
+    };
+
     /**
      * \brief Get the size of the number of registers of this Environment.
      *
-- 
2.43.0


From 1a3a2a0b91b1cae3a4b32776677cd7cfbbe33540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 19/20] fix: edges sharing a program but not their destination
 survive a dot export

---
 gegelatilib/include/file/tpgGraphDotExporter.h |  5 +++++
 gegelatilib/src/file/tpgGraphDotExporter.cpp   | 10 +++++++++-
 gegelatilib/src/file/tpgGraphDotImporter.cpp   |  6 +++---
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..58467a9 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -70,6 +70,11 @@ namespace File {
          */
         std::string offset;
 
+        /**
+         * \brief Destination of the first printed TPGEdge of each Program.
+         */
+        std::map<uint64_t, const TPG::TPGVertex*> programDestination;
+
         /**
          * \brief Print the dot content for the given TPGTeam.
          *
diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5018c95..615b4dd 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -72,7 +72,8 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
     uint64_t progID;
 
     Program::Program& p = edge.getProgram();
-    if (this->findProgramID(edge.getProgram(), progID)) {
+    bool newProgram = this->findProgramID(edge.getProgram(), progID);
+    if (newProgram) {
         // First time thie Program is encountered
         fprintf(pFile, "%sP%" PRIu64 " [fillcolor=\"#cccccc\" shape=point] //",
                 this->offset.c_str(), progID);
@@ -85,6 +86,13 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
         printProgram(p);
         fprintf(pFile, "%sP%" PRIu64 " -> I%" PRIu64 "[style=invis]\n",
                 this->offset.c_str(), progID, progID);
+        this->programDestination[progID] = edge.getDestination();
+    }
+
+    // The destination is only omitted when it is the one already printed for
+    // this Program.
+    if (newProgram ||
+        this->programDestination.at(progID) != edge.getDestination()) {
         auto* dest = edge.getDestination();
         if (dest && dynamic_cast<const TPG::TPGAction*>(dest) != nullptr) {
             uint64_t actionID =
diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3f9eaf3..5ba33d5 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -69,10 +69,10 @@ void File::TPGGraphDotImporter::readOperands(std::string& str, Program::Line& l)
 
     for (int i = 0; i < this->tpg.getEnvironment().getMaxNbOperands(); ++i) {
         pos2 = str.find("|");
-        dataIndex = std::stoi(str.substr(pos, pos2));
+        dataIndex = std::stoull(str.substr(pos, pos2));
         pos2++; // skip the '|'
         pos3 = str.find("#");
-        location = std::stoi(str.substr(pos2, pos3 - pos2));
+        location = std::stoull(str.substr(pos2, pos3 - pos2));
         str = str.substr(pos3 + 1,
                          str.size() -
                              pos3); // store the rest of the string and iterate
@@ -212,7 +212,7 @@ void File::TPGGraphDotImporter::readAction(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
         // the regex matches two groups (action number and action label)
-        uint64_t action_label = std::stoi(matches[2]);
+        uint64_t action_label = std::stoull(matches[2]);
         uint64_t action_number = std::stoi(matches[1]);
 
         // elmt points to the action with the same label as the action we are
-- 
2.43.0


From 9622d2076e8c3526c1530794561e3d2069f1ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 20/20] fix: evaluating a vertex of a graph without root no
 longer dereferences a null job

evaluateOneRoot accepts any vertex of the graph, but makeJob returned no job
when every vertex of the graph has an incoming edge (all in cycles).
---
 gegelatilib/src/learn/learningAgent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 60970be..bf9abc3 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -471,7 +471,8 @@ std::shared_ptr<Learn::Job> Learn::LearningAgent::makeJob(
         archiveSeed = this->rng.getUnsignedInt64(0, UINT64_MAX);
     }
 
-    if (tpgGraph->getNbRootVertices() > 0) {
+    // A graph without any root may still have vertices to evaluate.
+    if (tpgGraph->getNbVertices() > 0) {
         return std::make_shared<Learn::Job>(
             Learn::Job({vertex}, archiveSeed, idx));
     }
-- 
2.43.0

