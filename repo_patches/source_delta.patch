From 74392efd906078c0d659d67c8d08eb47c6299957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 01/41] fix: a stop, a wait or a save right after
 startTrainingAsync no longer depends on when the thread starts

---
 .../StraightforwardNeuralNetwork.hpp          |  1 +
 .../StraightforwardNeuralNetwork.cpp          | 25 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e5467e9..039298e 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -23,6 +23,7 @@ namespace snn
         int epoch = 0;
         int numberOfTrainingsBetweenTwoEvaluations = 0;
 
+        void setTrainingValues();
         void resetTrainingValues();
 
         void trainSync(Data& data, Wait wait, int batchSize, int evaluationFrequency);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..4744ecb 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -73,7 +73,16 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->validData(data, batchSize);
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
-    this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
+    this->setTrainingValues(); // before the thread runs, so that a stop or a wait cannot be lost
+    try
+    {
+        this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
 }
 
 void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, int evaluationFrequency)
@@ -82,6 +91,7 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     if (!this->isIdle)
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
+    this->setTrainingValues();
     this->trainSync(data, wait, batchSize, evaluationFrequency);
 }
 
@@ -89,10 +99,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
 {
     log<minimal>("Start training");
     wait.startClock();
-    this->epoch = 0;
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
-    this->wantToStopTraining = false;
-    this->isIdle = false;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
@@ -183,15 +190,23 @@ void StraightforwardNeuralNetwork::evaluateOnce(const Data& data)
 
 void StraightforwardNeuralNetwork::stopTrainingAsync()
 {
-    this->wantToStopTraining = true;
+    this->wantToStopTraining = !this->isIdle;
     if (this->thread.joinable())
     {
         log<minimal>("Stop training");
         this->thread.join();
+        this->wantToStopTraining = false;
         log<complete>("Thread closed");
     }
 }
 
+void StraightforwardNeuralNetwork::setTrainingValues()
+{
+    this->epoch = 0;
+    this->wantToStopTraining = false;
+    this->isIdle = false;
+}
+
 void StraightforwardNeuralNetwork::resetTrainingValues()
 {
     this->index = 0;
-- 
2.43.0


From e4e33ebba999d4ce83a0ed4e86b12b44e18d52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 02/41] fix: a network in training cannot be copied (the check
 looked at the copy instead of the source)

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 4744ecb..1d48ee1 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -31,10 +31,8 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 }
 
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
-    : NeuralNetwork(neuralNetwork)
+    : NeuralNetwork(neuralNetwork.isIdle ? neuralNetwork : throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy"))
 {
-    if (!this->isIdle)
-        throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
     this->index = neuralNetwork.index;
-- 
2.43.0


From 4001326273e134958e9b9edc395811dd88081a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 03/41] fix: measure training durations with a monotonic clock
 so that clock adjustments do not change them

---
 include/snn/neural_network/Wait.hpp |  6 +++---
 src/neural_network/Wait.cpp         | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 2b26d10..09ea6e6 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -16,9 +16,9 @@ namespace snn
         float accuracy = -1;
         float mae = -1;
         int duration = -1;
-        std::chrono::time_point<std::chrono::system_clock> start;
-        std::chrono::time_point<std::chrono::system_clock> lastReset;
-        std::chrono::time_point<std::chrono::system_clock> lastTick;
+        std::chrono::time_point<std::chrono::steady_clock> start;
+        std::chrono::time_point<std::chrono::steady_clock> lastReset;
+        std::chrono::time_point<std::chrono::steady_clock> lastTick;
         waitOperator op = waitOperator::noneOp;
         Wait& operator||(const Wait& wait);
         Wait& operator&&(const Wait& wait);
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..3ce02d9 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -57,14 +57,14 @@ Wait& Wait::operator&&(const Wait& wait)
 
 void Wait::startClock()
 {
-    this->start = system_clock::now();
+    this->start = steady_clock::now();
     this->lastTick = this->start;
     this->lastReset = this->start;
 }
 
 bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const
 {
-    const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
+    const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(steady_clock::now() - this->start).count());
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
@@ -89,14 +89,14 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
 
 int Wait::tick()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto tickDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastTick).count());
     return tickDuration;
 }
 
 float Wait::getDuration()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
     this->lastTick = now;
     return currentDuration / 1000.0f;
@@ -104,7 +104,7 @@ float Wait::getDuration()
 
 float Wait::getDurationAndReset()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
     this->lastTick = now;
     this->lastReset = now;
-- 
2.43.0


From 1a675258d8b65ea72f83a366c5d7f5ad6b14e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 04/41] fix: keep the MAE criterion in && expressions and
 reject every mix of || and &&

---
 src/neural_network/Wait.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 3ce02d9..0c3a68b 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,7 +9,7 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae > 0 && wait.mae > 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
-- 
2.43.0


From 1bf99f3707ea48b1da84e898102136842e70c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 05/41] fix: report save errors and keep the previous file
 until the new one is completely written

---
 .../StraightforwardNeuralNetwork.cpp          | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 1d48ee1..10ecbed 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,3 +1,5 @@
+#include <cstdio>
+#include <filesystem>
 #include <fstream>
 #include <thread>
 #include <stdexcept>
@@ -298,10 +300,27 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 
 void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
-    this->autoSaveFilePath = filePath;
-    ofstream ofs(filePath);
-    boost::archive::text_oarchive archive(ofs);
-    archive << this;
+    const string previousFilePath = this->autoSaveFilePath;
+    const string temporaryFilePath = filePath + ".tmp"; // the previous file remains intact until the new one is complete
+    try
+    {
+        this->autoSaveFilePath = filePath;
+        ofstream ofs(temporaryFilePath);
+        {
+            boost::archive::text_oarchive archive(ofs);
+            archive << this;
+        }
+        ofs.close();
+        if (!ofs)
+            throw runtime_error("Neural network cannot be saved in " + filePath);
+        filesystem::rename(temporaryFilePath, filePath);
+    }
+    catch (...)
+    {
+        this->autoSaveFilePath = previousFilePath;
+        std::remove(temporaryFilePath.c_str());
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 052f0fa0ff1ad7875cc2cfa9b908bd4cd1602db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 06/41] fix: a network loaded from an auto saved file is not in
 training

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 10ecbed..6ec67ab 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -330,6 +330,8 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    neuralNetwork->wantToStopTraining = false;
+    neuralNetwork->isIdle = true; // an auto saved file is written during training
     return *neuralNetwork;
 }
 
-- 
2.43.0


From cb47c0b34152d08de89ab4cac35117924b42573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 07/41] fix: reject a file truncated in its last value instead
 of loading a wrong value

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 6ec67ab..3de13f8 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -330,6 +330,11 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    if (ifs.get() != '\n') // the end of line written after the last value
+    {
+        delete neuralNetwork;
+        throw runtime_error("File " + filePath + " is truncated.");
+    }
     neuralNetwork->wantToStopTraining = false;
     neuralNetwork->isIdle = true; // an auto saved file is written during training
     return *neuralNetwork;
-- 
2.43.0


From 68c808afbb20929f0eb1acf245e64672b4e3fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 08/41] fix: record the best F1 score and the lowest RMSE

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..5fa7ef0 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -62,15 +62,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From 965564354a94c9c6da51f7ffd97bed8ca9684a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 09/41] fix: the training label follows the shuffle like the
 training data and outputs

---
 src/data/CompositeForClassification.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 175fd65..5a98d79 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -20,9 +20,10 @@ int CompositeForClassification::isValid()
 
 int CompositeForClassification::getTrainingLabel(const int index)
 {
-    for (int i = 0; i < (int)this->sets[training].labels[index].size(); i++)
+    const auto& label = this->sets[training].labels[this->sets[training].shuffledIndexes[index]];
+    for (int i = 0; i < (int)label.size(); i++)
     {
-        if (this->sets[training].labels[index][i] == 1)
+        if (label[i] == 1)
             return i;
     }
     throw std::runtime_error("wrong label");
-- 
2.43.0


From 0a24ac69d9d3a509f24a97f16c69130d050537e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 10/41] fix: threads training in parallel no longer share a
 random number generator

---
 include/snn/tools/Tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 11db1d5..01f27ad 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -38,7 +38,7 @@ namespace snn::internal
 namespace snn::tools
 {
     static std::random_device rd;
-    static std::mt19937 rng(rd());
+    static thread_local std::mt19937 rng(rd()); // networks can be trained in parallel
 
     int randomBetween(const int min, const int max); // [min; max[
     float randomBetween(const float min, const float max);
-- 
2.43.0


From 31ca1513231ac4ed5735ab52d12b7308af7ad698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 11/41] fix: a training that fails leaves the network idle and
 reports its error instead of ending the process

---
 .../StraightforwardNeuralNetwork.hpp          |  3 ++
 .../StraightforwardNeuralNetwork.cpp          | 40 +++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index 039298e..2c5d6b4 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <exception>
 #include <string>
 #include <vector>
 #include <thread>
@@ -16,6 +17,7 @@ namespace snn
     {
     private:
         std::thread thread;
+        std::exception_ptr trainingError = nullptr;
 
         bool wantToStopTraining = false;
         bool isIdle = true;
@@ -26,6 +28,7 @@ namespace snn
         void setTrainingValues();
         void resetTrainingValues();
 
+        void trainAsync(Data& data, int batchSize, int evaluationFrequency);
         void trainSync(Data& data, Wait wait, int batchSize, int evaluationFrequency);
         void saveSync(std::string filePath);
         void evaluate(const Data& data, Wait* wait);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 3de13f8..0adeb57 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,8 +1,10 @@
 #include <cstdio>
+#include <exception>
 #include <filesystem>
 #include <fstream>
 #include <thread>
 #include <stdexcept>
+#include <utility>
 #include <boost/serialization/export.hpp>
 #include <boost/archive/text_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
@@ -18,7 +20,14 @@ using namespace tools;
 
 StraightforwardNeuralNetwork::~StraightforwardNeuralNetwork()
 {
-    this->stopTrainingAsync();
+    try
+    {
+        this->stopTrainingAsync();
+    }
+    catch (...)
+    {
+        log<minimal>("Training failed");
+    }
 }
 
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> architecture, NeuralNetworkOptimizerModel optimizer)
@@ -76,7 +85,7 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->setTrainingValues(); // before the thread runs, so that a stop or a wait cannot be lost
     try
     {
-        this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
+        this->thread = std::thread(&StraightforwardNeuralNetwork::trainAsync, this, ref(data), batchSize, evaluationFrequency);
     }
     catch (...)
     {
@@ -92,7 +101,28 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
     this->setTrainingValues();
-    this->trainSync(data, wait, batchSize, evaluationFrequency);
+    try
+    {
+        this->trainSync(data, wait, batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
+}
+
+void StraightforwardNeuralNetwork::trainAsync(Data& data, const int batchSize, const int evaluationFrequency)
+{
+    try
+    {
+        this->trainSync(data, Wait(), batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->trainingError = current_exception(); // thrown again by stopTrainingAsync
+        this->resetTrainingValues();
+    }
 }
 
 void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int batchSize, const int evaluationFrequency)
@@ -198,6 +228,8 @@ void StraightforwardNeuralNetwork::stopTrainingAsync()
         this->wantToStopTraining = false;
         log<complete>("Thread closed");
     }
+    if (this->trainingError)
+        rethrow_exception(exchange(this->trainingError, nullptr));
 }
 
 void StraightforwardNeuralNetwork::setTrainingValues()
@@ -230,7 +262,7 @@ bool StraightforwardNeuralNetwork::continueTraining(Wait wait) const
 void StraightforwardNeuralNetwork::waitFor(Wait wait) const
 {
     wait.startClock();
-    while (!this->hasNan())
+    while (!this->hasNan() && !this->trainingError)
     {
         this_thread::sleep_for(1ms);
 
-- 
2.43.0


From 82d21479b8584cd90d3c179db288e3a8f8df65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 12/41] fix: a network in training cannot be evaluated (the
 evaluation moves the index of the training in progress)

---
 .../snn/neural_network/StraightforwardNeuralNetwork.hpp    | 2 +-
 src/neural_network/StraightforwardNeuralNetwork.cpp        | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index 2c5d6b4..e07ebc3 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -66,7 +66,7 @@ namespace snn
         void waitFor(Wait wait) const;
         void train(Data& data, Wait wait, int batchSize = 1, int evaluationFrequency = 1);
 
-        void evaluate(const Data& data) { return this->evaluate(data, nullptr); }
+        void evaluate(const Data& data);
 
         std::vector<float> computeOutput(const std::vector<float>& inputs, bool temporalReset = false);
         int computeCluster(const std::vector<float>& inputs, bool temporalReset = false);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 0adeb57..738e1df 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -159,6 +159,13 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     log<minimal>("Stop training");
 }
 
+void StraightforwardNeuralNetwork::evaluate(const Data& data)
+{
+    if (!this->isIdle)
+        throw runtime_error("Neural network cannot be evaluated during training, stop training before evaluating");
+    this->evaluate(data, nullptr);
+}
+
 void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
 {
     this->startTesting();
-- 
2.43.0


From dbdadfc95203763e046519b8a45d9d7fc029a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 13/41] fix: a NaN in the last testing data makes the
 evaluation NaN like in any other testing data

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 738e1df..7edfa7c 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -184,6 +184,12 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
             this->output(data.getTestingData(this->index), data.isFirstTestingDataOfTemporalSequence(this->index));
         this->logInProgress<minimal>(*wait, data, testing);
     }
+    if (this->hasNan()) // in the last testing data
+    {
+        this->setResultsAsNan();
+        this->resetTrainingValues();
+        return;
+    }
     this->stopTesting();
     if (this->autoSaveWhenBetter && this->globalClusteringRateIsBetterThanMax)
     {
-- 
2.43.0


From 0c936ff17981b2033e88e1ad56c058f7753ee7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 14/41] fix: load files containing NaN or infinite values

---
 .../StraightforwardNeuralNetwork.cpp          | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 7edfa7c..c8b553f 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,7 +1,10 @@
+#include <cctype>
+#include <charconv>
 #include <cstdio>
 #include <exception>
 #include <filesystem>
 #include <fstream>
+#include <locale>
 #include <thread>
 #include <stdexcept>
 #include <utility>
@@ -18,6 +21,26 @@ using namespace snn;
 using namespace internal;
 using namespace tools;
 
+namespace
+{
+    // The archive writes NaN and infinite values but a standard stream cannot read them.
+    class NonFiniteFloatReader final : public num_get<char>
+    {
+        iter_type do_get(iter_type in, iter_type end, ios_base&, ios_base::iostate& err, float& value) const override
+        {
+            string token;
+            for (; in != end && !isspace(static_cast<unsigned char>(*in)); ++in)
+                token += *in;
+            if (in == end)
+                err |= ios_base::eofbit;
+            const auto [last, error] = from_chars(token.data(), token.data() + token.size(), value);
+            if (error != errc() || last != token.data() + token.size())
+                err |= ios_base::failbit;
+            return in;
+        }
+    };
+}
+
 StraightforwardNeuralNetwork::~StraightforwardNeuralNetwork()
 {
     try
@@ -373,6 +396,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
+    ifs.imbue(locale(ifs.getloc(), new NonFiniteFloatReader()));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     if (ifs.get() != '\n') // the end of line written after the last value
-- 
2.43.0


From 3afb5206f232ce8ef6ba44848e768f62eb4656cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 15/41] fix: reject time series shorter than a window
 (shuffling them writes out of bounds)

---
 src/data/CompositeForTimeSeries.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..6c5ce92 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -13,6 +13,8 @@ CompositeForTimeSeries::CompositeForTimeSeries(Set sets[2], int numberOfRecurren
 {
     if (this->numberOfRecurrences < 1)
         throw runtime_error("The number of recurrence must be >= 1 for time series.");
+    if (this->numberOfRecurrences >= this->sets[training].size)
+        throw runtime_error("The number of recurrence must be smaller than the number of training data for time series.");
 
     this->sets[training].numberOfTemporalSequence = 1;
     this->sets[testing].numberOfTemporalSequence = 1;
-- 
2.43.0


From 273462725c87ff4869e36e13618371a21877a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 16/41] fix: a MAE of zero meets a MAE criterion

---
 src/neural_network/Wait.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 0c3a68b..14f5a14 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -67,7 +67,7 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
-    const bool isValidMae = currentMae <= this->mae && currentMae > 0;
+    const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
     if (this->op == waitOperator::andOp)
-- 
2.43.0


From c4b64875ab998a3bb29b242dc9192c348f79de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 17/41] fix: mean absolute error and RMSE truncated every error
 to an integer

---
 src/neural_network/StatisticAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 5fa7ef0..cd6d3c0 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -105,7 +105,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -139,7 +139,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -161,7 +161,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalError += std::abs(1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -174,7 +174,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalError += std::abs(0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
-- 
2.43.0


From 1ef9525d0145b74510ee7101057529fae57d5c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 18/41] fix: NaN and infinite outputs were never detected in
 release builds (-ffast-math)

---
 src/neural_network/NeuralNetwork.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..75bcdc8 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -1,4 +1,6 @@
+#include <bit>
 #include <cmath>
+#include <cstdint>
 #include <ctime>
 #include <boost/serialization/export.hpp>
 #include "NeuralNetwork.hpp"
@@ -10,6 +12,16 @@ using namespace std;
 using namespace snn;
 using namespace internal;
 
+namespace
+{
+    // NaN or infinity. Checked on the bits because -ffast-math lets the compiler assume that such values do not exist.
+    bool isNotFinite(const float value)
+    {
+        constexpr uint32_t exponentMask = 0x7f800000;
+        return (bit_cast<uint32_t>(value) & exponentMask) == exponentMask;
+    }
+}
+
 NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOptimizerModel optimizer)
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
@@ -64,7 +76,7 @@ vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalRe
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->output(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, isNotFinite))
         this->outputNan = true;
 
     return outputs;
@@ -77,7 +89,7 @@ std::vector<float> NeuralNetwork::outputForTraining(const std::vector<float>& in
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->outputForTraining(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, isNotFinite))
         this->outputNan = true;
 
     return outputs;
-- 
2.43.0


From b9c0eef20f2cf6187fe5d092d36d41eab7b9677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 19/41] fix: results after a NaN in training were those of the
 last evaluation unless one followed

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index c8b553f..6cc2dac 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -178,6 +178,8 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
         if (evaluationFrequency > 0 && this->epoch % evaluationFrequency == 0)
             this->evaluate(data, &wait);
     }
+    if (this->hasNan())
+        this->setResultsAsNan();
     this->resetTrainingValues();
     log<minimal>("Stop training");
 }
-- 
2.43.0


From fe0bc7452415a26755268f79e749789980b65e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 20/41] fix: && of a MAE of zero and another MAE kept the
 easiest one

---
 src/neural_network/Wait.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 14f5a14..e528008 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -44,7 +44,7 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.mae > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
-- 
2.43.0


From 57ceb9a6e6a8f03fc1fa20a9b3525437823c16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 21/41] fix: 1D max pooling of several channels kept only the
 outputs of one (out of bounds in the next layer)

---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..d3460ac 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -28,7 +28,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From 7c6bf52a2aaa575ed448eadf45aa305267068c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 22/41] fix: a training ended during an epoch went on if the
 next evaluation was worse, and counted that epoch

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 6cc2dac..e9eafd4 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -175,8 +175,11 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
                 this->outputForTraining(data.getTrainingData(this->index, batchSize), data.isFirstTrainingDataOfTemporalSequence(this->index));
             this->logInProgress<minimal>(wait, data, training);
         }
+        const bool isEpochOver = this->index + batchSize > this->numberOfTrainingsBetweenTwoEvaluations;
         if (evaluationFrequency > 0 && this->epoch % evaluationFrequency == 0)
             this->evaluate(data, &wait);
+        if (!isEpochOver) // the training was ended during the epoch
+            break;
     }
     if (this->hasNan())
         this->setResultsAsNan();
-- 
2.43.0


From 77f0fe3660c97229a0021fd6277766328286ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 23/41] fix: time limits of more than 24 days overflowed, and
 such trainings or waits never ended

---
 include/snn/neural_network/Wait.hpp | 3 ++-
 src/neural_network/Wait.cpp         | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 09ea6e6..121d601 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <chrono>
+#include <cstdint>
 
 namespace snn
 {
@@ -15,7 +16,7 @@ namespace snn
         int epochs = -1;
         float accuracy = -1;
         float mae = -1;
-        int duration = -1;
+        int64_t duration = -1; // in milliseconds
         std::chrono::time_point<std::chrono::steady_clock> start;
         std::chrono::time_point<std::chrono::steady_clock> lastReset;
         std::chrono::time_point<std::chrono::steady_clock> lastTick;
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index e528008..7a3f1f8 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -63,7 +63,7 @@ void Wait::startClock()
 
 bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const
 {
-    const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(steady_clock::now() - this->start).count());
+    const auto currentDuration = static_cast<int64_t>(duration_cast<milliseconds>(steady_clock::now() - this->start).count());
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
@@ -134,20 +134,20 @@ Wait snn::operator""_mae(long double value)
 Wait snn::operator""_ms(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value;
+    res.duration = (int64_t)value;
     return res;
 }
 
 Wait snn::operator""_s(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value * 1000;
+    res.duration = (int64_t)value * 1000;
     return res;
 }
 
 Wait snn::operator""_min(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value * 1000 * 60;
+    res.duration = (int64_t)value * 1000 * 60;
     return res;
 }
-- 
2.43.0


From dbcea454cf8a616500eadb122e6940306ae25783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 24/41] fix: loadFrom of a file of numbers could ask for any
 amount of memory

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index e9eafd4..d18281d 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -401,6 +401,12 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
+    const string signature = "22 serialization::archive"; // at the beginning of every archive, and of nothing else
+    string beginning(signature.size(), ' ');
+    ifs.read(beginning.data(), static_cast<streamsize>(beginning.size()));
+    if (beginning != signature)
+        throw runtime_error("File " + filePath + " does not hold a neural network.");
+    ifs.seekg(0);
     ifs.imbue(locale(ifs.getloc(), new NonFiniteFloatReader()));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
-- 
2.43.0


From 602eca8646995ac462e722b7393de24fe6772cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 25/41] fix: 2D pooling and locally connected layers read the
 wrong inputs when the output is not square

---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/MaxPooling2D.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 9512b7b2fdad8eedfcb5daa502bcf10805748449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 26/41] fix: root mean squared error was computed from the
 squared sums of the errors

---
 include/snn/neural_network/StatisticAnalysis.hpp |  8 ++++++++
 src/neural_network/StatisticAnalysis.cpp         | 16 +++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..1b503ab 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cmath>
 #include <vector>
 #include <boost/serialization/access.hpp>
 
@@ -11,6 +12,13 @@ namespace snn::internal
         float falsePositive{};
         float falseNegative{};
         float totalError{};
+        float totalSquaredError{};
+
+        void addError(const float error)
+        {
+            totalError += std::abs(error);
+            totalSquaredError += error * error;
+        }
 
         bool operator==(const binaryClassification&) const
         {
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index cd6d3c0..f81aeab 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -19,6 +19,7 @@ void StatisticAnalysis::setResultsAsNan()
         c.falsePositive = NAN;
         c.falseNegative = NAN;
         c.totalError = NAN;
+        c.totalSquaredError = NAN;
     }
     numberOfDataWellClassified = NAN;
     numberOfDataMisclassified = NAN;
@@ -39,6 +40,7 @@ void StatisticAnalysis::startTesting()
         c.falsePositive = 0;
         c.falseNegative = 0;
         c.totalError = 0;
+        c.totalSquaredError = 0;
     }
     numberOfDataWellClassified = 0;
     numberOfDataMisclassified = 0;
@@ -105,7 +107,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].addError(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -139,7 +141,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].addError(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -161,7 +163,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += std::abs(1 - outputs[i]);
+            clusters[i].addError(1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -174,7 +176,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += std::abs(0 - outputs[i]);
+            clusters[i].addError(0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -235,12 +237,12 @@ float StatisticAnalysis::computeMeanAbsoluteError() const
 
 float StatisticAnalysis::computeRootMeanSquaredError() const
 {
-    float totalError = 0;
+    float totalSquaredError = 0;
     for (const auto& c : clusters)
     {
-        totalError += c.totalError * c.totalError;
+        totalSquaredError += c.totalSquaredError;
     }
-    const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
+    const float meanSquaredError = totalSquaredError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
 }
 
-- 
2.43.0


From f03d274dc4356757b1f900a0d6b4d04eb195ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 27/41] fix: saveFeatureMapsAsBitmap read outside the neurons
 and the weights of filter layers

---
 .../snn/neural_network/layer/FilterLayer.hpp  |  1 +
 .../NeuralNetworkVisualization.cpp            | 29 ++++++++-----------
 src/neural_network/layer/FilterLayer.cpp      |  5 ++++
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/snn/neural_network/layer/FilterLayer.hpp b/include/snn/neural_network/layer/FilterLayer.hpp
index b85d6b0..bc8f286 100644
--- a/include/snn/neural_network/layer/FilterLayer.hpp
+++ b/include/snn/neural_network/layer/FilterLayer.hpp
@@ -36,6 +36,7 @@ namespace snn::internal
         [[nodiscard]] std::vector<int> getShapeOfInput() const final;
         [[nodiscard]] std::vector<int> getShapeOfOutput() const final;
         [[nodiscard]] int getKernelSize() const;
+        [[nodiscard]] const vector2D<int>& getKernelIndexes() const;
         [[nodiscard]] int isValid() const override;
 
         bool operator==(const BaseLayer& layer) const override;
diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 4f45f5e..e899037 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -8,7 +8,7 @@ using namespace tools;
 
 void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const string& filePath)
 {
-    if (filterLayer == nullptr)
+    if (filterLayer == nullptr || filterLayer->getNumberOfNeurons() == 0) // max pooling has no weights
         return;
     auto shape = filterLayer->getShapeOfInput();
     if (shape.size() != 3)
@@ -49,24 +49,19 @@ void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const st
 std::vector<float> NeuralNetworkVisualization::getWeights(FilterLayer* filterLayer, int filterNumber)
 {
     auto inputShape = filterLayer->getShapeOfInput();
-    auto outputShape = filterLayer->getShapeOfOutput();
-    auto filterSize = filterLayer->getKernelSize();
-    auto neuronByFilter = outputShape[X] * outputShape[Y];
-    vector<float> weights(filterLayer->getNumberOfInputs(), 0.0f);
-    for (int n = 0; n < neuronByFilter; ++n)
+    const int numberOfFilters = filterLayer->getShapeOfOutput()[C];
+    const auto& kernelIndexes = filterLayer->getKernelIndexes();
+    vector<float> weights(inputShape[X] * inputShape[Y], 0.0f);
+    for (int k = 0; k < static_cast<int>(kernelIndexes.size()); ++k)
     {
-        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(n * (filterNumber + 1)))->getWeights();
-        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]);
-        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]);
-
-        for (int y = 0; y < filterSize; ++y)
+        // the neuron of a filter is the same everywhere in a convolution
+        const int neuronIndex = (k * numberOfFilters + filterNumber) % filterLayer->getNumberOfNeurons();
+        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(neuronIndex))->getWeights();
+        for (size_t w = 0; w < kernelIndexes[k].size(); ++w)
         {
-            for (int x = 0; x < filterSize; ++x)
-            {
-                const int i = flatten(neuronPositionX + x, neuronPositionY + y, inputShape[X]);
-                const int j = flatten(x, y, filterSize);
-                weights[i] += neuronWeight[j];
-            }
+            const int index = kernelIndexes[k][w];
+            if (index >= 0)
+                weights[index / inputShape[C]] += neuronWeight[w];
         }
     }
     return weights;
diff --git a/src/neural_network/layer/FilterLayer.cpp b/src/neural_network/layer/FilterLayer.cpp
index adbd657..08aea0d 100644
--- a/src/neural_network/layer/FilterLayer.cpp
+++ b/src/neural_network/layer/FilterLayer.cpp
@@ -32,6 +32,11 @@ int FilterLayer::getKernelSize() const
     return this->kernelSize;
 }
 
+const vector2D<int>& FilterLayer::getKernelIndexes() const
+{
+    return this->kernelIndexes;
+}
+
 int FilterLayer::isValid() const
 {
     int numberOfOutput = 1;
-- 
2.43.0


From 3d1fa35595d24656803ccf5dd3d22c0ef34e504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 28/41] fix: saveData2DAsBitmap read past the end of inputs
 with two channels

---
 src/neural_network/NeuralNetworkVisualization.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index e899037..823c121 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -122,9 +122,11 @@ void NeuralNetworkVisualization::saveAsBitmap(std::vector<float> inputs, std::ve
             }
             else
             {
-                const auto red = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto blue = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto green = static_cast<unsigned char>(inputs[index++] * 255.0f);
+                const auto* pixel = &inputs[index];
+                const auto red = static_cast<unsigned char>(pixel[0] * 255.0f);
+                const auto blue = static_cast<unsigned char>(pixel[1] * 255.0f);
+                const auto green = shapeOfInput[C] > 2 ? static_cast<unsigned char>(pixel[2] * 255.0f) : static_cast<unsigned char>(0);
+                index += shapeOfInput[C];
                 image.set_pixel(x, y, red, blue, green);
             }
         }
-- 
2.43.0


From 2da05974c4a5aaf34043dbbfc66272807cbe718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 29/41] fix: a layer with a kernel of size 0 or without filter
 divided by zero

---
 src/neural_network/layer/LayerFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index d3460ac..7aa2c87 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -93,6 +93,12 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
     if (model.numberOfInputs > 1000000)
         throw InvalidArchitectureException("Layer is too big.");
 
+    const bool isConnected = model.type == locallyConnected || model.type == convolution;
+    if ((model.type == maxPooling || isConnected) && model.kernelSize < 1)
+        throw InvalidArchitectureException("Kernel has size of 0.");
+    if (isConnected && model.numberOfFilters < 1)
+        throw InvalidArchitectureException("Layer has no filter.");
+
     switch (model.type)
     {
     case fullyConnected:
-- 
2.43.0


From 2d73046005e5ab0354c92a4e3c246c0389402f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 30/41] fix: evaluate read out of bounds with data of another
 format than the network's

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d18281d..1f21d6f 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -191,6 +191,7 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data)
 {
     if (!this->isIdle)
         throw runtime_error("Neural network cannot be evaluated during training, stop training before evaluating");
+    this->validData(data, 1);
     this->evaluate(data, nullptr);
 }
 
-- 
2.43.0


From 9e3bd4721b6962ea28936eb788157c5569277a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 31/41] fix: computeOutput, computeCluster and trainOnce read
 out of bounds with inputs of another size than the network's

---
 src/neural_network/NeuralNetwork.cpp                | 4 ++++
 src/neural_network/StraightforwardNeuralNetwork.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index 75bcdc8..bfeb2c5 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -2,6 +2,7 @@
 #include <cmath>
 #include <cstdint>
 #include <ctime>
+#include <stdexcept>
 #include <boost/serialization/export.hpp>
 #include "NeuralNetwork.hpp"
 #include "layer/LayerModel.hpp"
@@ -65,6 +66,9 @@ void NeuralNetwork::evaluateOnceForClassification(const vector<float>& inputs, c
 
 void NeuralNetwork::trainOnce(const vector<float>& inputs, const vector<float>& desired, bool temporalReset)
 {
+    if (static_cast<int>(inputs.size()) != this->getNumberOfInputs()
+        || static_cast<int>(desired.size()) != this->getNumberOfOutputs())
+        throw runtime_error("Data has not the same format as the neural network");
     this->backpropagationAlgorithm(inputs, desired, temporalReset);
     this->numberOfTraining++;
 }
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 1f21d6f..20984f3 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -76,11 +76,15 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const Straightforward
 
 vector<float> StraightforwardNeuralNetwork::computeOutput(const vector<float>& inputs, bool temporalReset)
 {
+    if (static_cast<int>(inputs.size()) != this->getNumberOfInputs())
+        throw runtime_error("Inputs have not the same size as the inputs of the neural network");
     return this->output(inputs, temporalReset);
 }
 
 int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bool temporalReset)
 {
+    if (static_cast<int>(inputs.size()) != this->getNumberOfInputs())
+        throw runtime_error("Inputs have not the same size as the inputs of the neural network");
     const auto outputs = this->output(inputs, temporalReset);
     float maxOutputValue = -2;
     int maxOutputIndex = -1;
-- 
2.43.0


From 810d62c696984356e569fad7abfd246ce73e7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 32/41] fix: a number of trainings between two evaluations
 raised during a training read past the end of the data

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 20984f3..84fa289 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -157,12 +157,17 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     log<minimal>("Start training");
     wait.startClock();
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
+    const auto isLastBatchOver = [&] // the number can be changed during the training
+    {
+        const int numberOfTrainings = this->numberOfTrainingsBetweenTwoEvaluations;
+        return this->index + batchSize > min(numberOfTrainings, data.sets[training].size);
+    };
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
     {
         data.shuffle();
-        for (this->index = 0; index + batchSize <= this->numberOfTrainingsBetweenTwoEvaluations && this->continueTraining(wait);
+        for (this->index = 0; !isLastBatchOver() && this->continueTraining(wait);
              this->index += batchSize)
         {
             if (this->hasNan())
@@ -179,7 +184,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
                 this->outputForTraining(data.getTrainingData(this->index, batchSize), data.isFirstTrainingDataOfTemporalSequence(this->index));
             this->logInProgress<minimal>(wait, data, training);
         }
-        const bool isEpochOver = this->index + batchSize > this->numberOfTrainingsBetweenTwoEvaluations;
+        const bool isEpochOver = isLastBatchOver();
         if (evaluationFrequency > 0 && this->epoch % evaluationFrequency == 0)
             this->evaluate(data, &wait);
         if (!isEpochOver) // the training was ended during the epoch
-- 
2.43.0


From b40a1c3d6c7a24174a88adecdd98fbfa66ad6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 33/41] fix: a network whose last layer is a convolution or a
 max pooling took its number of neurons for its number of outputs

---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index bfeb2c5..1e46914 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -27,7 +27,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -39,7 +39,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -116,7 +116,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(outputs.size(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -160,7 +160,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1; // more than neurons if the last layer is a convolution
+    for (const auto size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From b6c1b6aa347046bb2c4c3f8ea67efdafab897aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 34/41] fix: a class was never found among outputs that are all
 below -2

---
 src/neural_network/StatisticAnalysis.cpp            | 3 ++-
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index f81aeab..922e50f 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <limits>
 #include "StatisticAnalysis.hpp"
 
 using namespace snn;
@@ -151,7 +152,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
 
 void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>& outputs, int classNumber, float separator)
 {
-    float maxOutputValue = -2;
+    float maxOutputValue = std::numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
 
     for (int i = 0; i < (int)clusters.size(); i++)
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 84fa289..eaa4932 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -4,6 +4,7 @@
 #include <exception>
 #include <filesystem>
 #include <fstream>
+#include <limits>
 #include <locale>
 #include <thread>
 #include <stdexcept>
@@ -86,7 +87,7 @@ int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bo
     if (static_cast<int>(inputs.size()) != this->getNumberOfInputs())
         throw runtime_error("Inputs have not the same size as the inputs of the neural network");
     const auto outputs = this->output(inputs, temporalReset);
-    float maxOutputValue = -2;
+    float maxOutputValue = numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
-- 
2.43.0


From 7f1421c6b85835e5b1f07457018b90d69782a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:43 +0000
Subject: [PATCH 35/41] fix: data whose inputs and labels are empty or do not
 match were accepted and read out of bounds

---
 src/data/Data.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..f1c726c 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -99,6 +99,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
                       vector<vector<float>>& testingInputs,
                       vector<vector<float>>& testingLabels)
 {
+    if (trainingInputs.empty() || trainingLabels.empty())
+        throw runtime_error("Error 405: Wrong parameter in the creation of data");
+
     this->precision = 0.1f;
     this->separator = 0.5f;
     this->sets[training].inputs = trainingInputs;
@@ -171,6 +174,8 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("A temporal sequence is empty.");
         ranges::move(v, back_inserter(this->sets[set].inputs));
 
         this->sets[set].areFirstDataOfTemporalSequence[i] = true;
@@ -198,6 +203,8 @@ void Data::flatten(vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("A temporal sequence is empty.");
         ranges::move(v, back_inserter(this->sets[training].inputs));
 
         this->sets[training].areFirstDataOfTemporalSequence[i] = true;
@@ -272,11 +279,15 @@ int Data::isValid()
         && this->sets[training].size != (int)this->sets[training].shuffledIndexes.size())
         return 403;
 
-    if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
-        return 405;
+    for (const auto& set : this->sets)
+    {
+        const auto isOfSize = [](const int size) { return [size](const vector<float>& v) { return static_cast<int>(v.size()) == size; }; };
+        if (set.size != (int)set.inputs.size()
+            || set.size != (int)set.labels.size()
+            || !ranges::all_of(set.inputs, isOfSize(this->sizeOfData))
+            || !ranges::all_of(set.labels, isOfSize(this->numberOfLabels)))
+            return 405;
+    }
 
     int err = this->problemComposite->isValid();
     if (err != 0)
-- 
2.43.0


From 42990a48362484a6c62aba7a77f3ae83af1d6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 36/41] fix: bitmaps of testing data with a wrong index or of
 another format read out of bounds

---
 .../neural_network/StraightforwardNeuralNetwork.hpp  |  1 +
 src/neural_network/StraightforwardNeuralNetwork.cpp  | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e07ebc3..db179ed 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -36,6 +36,7 @@ namespace snn
 
         bool continueTraining(Wait wait) const;
         void validData(const Data& data, int batchSize) const;
+        void validTestingData(const Data& data, int dataIndex) const;
 
         template <logLevel T>
         void logAccuracy(Wait& wait, const bool hasSaved) const;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index eaa4932..4422cbb 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -344,6 +344,14 @@ void StraightforwardNeuralNetwork::validData(const Data& data, int batchSize) co
         throw runtime_error("Batch size is too large");
 }
 
+void StraightforwardNeuralNetwork::validTestingData(const Data& data, int dataIndex) const
+{
+    if (data.sizeOfData != this->getNumberOfInputs())
+        throw runtime_error("Data has not the same format as the neural network");
+    if (dataIndex < 0 || dataIndex >= data.sets[testing].size)
+        throw runtime_error("There is no testing data of this index");
+}
+
 void StraightforwardNeuralNetwork::saveAs(const string filePath)
 {
     if (!this->isIdle)
@@ -364,7 +372,8 @@ void StraightforwardNeuralNetwork::saveFeatureMapsAsBitmap(string filePath)
 
 void StraightforwardNeuralNetwork::saveData2DAsBitmap(string filePath, const Data& data, int dataIndex)
 {
-     NeuralNetworkVisualization::saveAsBitmap(data.getTestingData(dataIndex), this->layers[0]->getShapeOfInput(), filePath + "_input" + to_string(dataIndex) + ".bmp");
+    this->validTestingData(data, dataIndex);
+    NeuralNetworkVisualization::saveAsBitmap(data.getTestingData(dataIndex), this->layers[0]->getShapeOfInput(), filePath + "_input" + to_string(dataIndex) + ".bmp");
 }
 
 void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, const Data& data, int dataIndex)
@@ -372,6 +381,7 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
     if (!this->isIdle)
         throw runtime_error("Filter layers cannot be saved during training, stop training before saving");
 
+    this->validTestingData(data, dataIndex);
     auto outputs = this->getLayerOutputs(data.getTestingData(dataIndex));
 
     for (size_t l = 0; l < this->layers.size(); ++l)
-- 
2.43.0


From dcb147a5f52021b2927c0680973249bbf14e2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 37/41] fix: a bitmap that could not be created or written was
 reported as saved

---
 src/external_library/bitmap/BitmapImage.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/external_library/bitmap/BitmapImage.hpp b/src/external_library/bitmap/BitmapImage.hpp
index ee73501..9cd7fd0 100644
--- a/src/external_library/bitmap/BitmapImage.hpp
+++ b/src/external_library/bitmap/BitmapImage.hpp
@@ -30,6 +30,7 @@
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -434,9 +435,7 @@ public:
 
       if (!stream)
       {
-         std::cerr << "bitmap_image::save_image(): Error - Could not open file "
-                   << file_name << " for writing!" << std::endl;
-         return;
+         throw std::runtime_error("Could not open file " + file_name + " for writing");
       }
 
       bitmap_information_header bih;
@@ -476,6 +475,11 @@ public:
       }
 
       stream.close();
+
+      if (!stream)
+      {
+         throw std::runtime_error("Could not write file " + file_name);
+      }
    }
 
    inline void set_all_ith_bits_low(const unsigned int bitr_index)
-- 
2.43.0


From 41fc00002907215c0ff3056426cabe74ff0f14d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 38/41] fix: comparing layers that do not have as many
 optimizers read past the end of the list

---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From c745d791bcf5cd502bb1c2704268dd6ca2af8a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:48 +0000
Subject: [PATCH 39/41] fix: unshuffle time series without allocating, so that
 it cannot fail half done

---
 src/data/CompositeForTimeSeries.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 6c5ce92..ec5c0c5 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -80,8 +80,8 @@ void CompositeForTimeSeries::shuffle()
 void CompositeForTimeSeries::unshuffle()
 {
     this->TemporalComposite::unshuffle();
-    this->sets[training].needToTrainOnData = vector(this->sets[training].size, true);
-    this->sets[training].areFirstDataOfTemporalSequence = vector(this->sets[training].size, false);
+    this->sets[training].needToTrainOnData.assign(this->sets[training].size, true);
+    this->sets[training].areFirstDataOfTemporalSequence.assign(this->sets[training].size, false);
     this->sets[training].areFirstDataOfTemporalSequence[0] = true;
 }
 
-- 
2.43.0


From 2977fbd02073d1db4d3368b84bc85eae172307c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:15 +0000
Subject: [PATCH 40/41] fix: a failed forward pass does not shift the inputs a
 convolution learns from

---
 include/snn/neural_network/layer/neuron/CircularData.hpp | 2 +-
 src/neural_network/layer/neuron/CircularData.cpp         | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/snn/neural_network/layer/neuron/CircularData.hpp b/include/snn/neural_network/layer/neuron/CircularData.hpp
index e2ac9cd..5822687 100644
--- a/include/snn/neural_network/layer/neuron/CircularData.hpp
+++ b/include/snn/neural_network/layer/neuron/CircularData.hpp
@@ -24,7 +24,7 @@ namespace snn::internal
         ~CircularData() = default;
 
         [[nodiscard]] const std::vector<float>* getBack();
-        void pushBack(std::vector<float> data);
+        void pushBack(const std::vector<float>& data);
 
         bool operator==(const CircularData& other) const;
         bool operator!=(const CircularData& other) const;
diff --git a/src/neural_network/layer/neuron/CircularData.cpp b/src/neural_network/layer/neuron/CircularData.cpp
index a2b735d..e26f182 100644
--- a/src/neural_network/layer/neuron/CircularData.cpp
+++ b/src/neural_network/layer/neuron/CircularData.cpp
@@ -1,7 +1,6 @@
 #include "CircularData.hpp"
 
 #include <cassert>
-#include <utility>
 
 using namespace std;
 
@@ -21,12 +20,12 @@ const std::vector<float>* snn::internal::CircularData::getBack()
     return &this->queue[this->indexGet++];
 }
 
-void snn::internal::CircularData::pushBack(std::vector<float> data)
+void snn::internal::CircularData::pushBack(const std::vector<float>& data)
 {
     assert(this->indexPush <= this->queue.size());
     if (this->indexPush >= this->queue.size())
         this->indexPush = 0;
-    this->queue[this->indexPush++] = std::move(data);
+    this->queue[this->indexPush++] = data; // in the memory it already has
 }
 
 bool snn::internal::CircularData::operator==(const CircularData& other) const
-- 
2.43.0


From e493f5218ef8c3b2827cfe6246cd6f9bc4195cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:07 +0000
Subject: [PATCH 41/41] fix: save and load files in the classic locale

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 4422cbb..fece50b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -400,6 +400,7 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
     {
         this->autoSaveFilePath = filePath;
         ofstream ofs(temporaryFilePath);
+        ofs.imbue(locale::classic()); // the file does not depend on the locale of the program
         {
             boost::archive::text_oarchive archive(ofs);
             archive << this;
@@ -428,7 +429,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     if (beginning != signature)
         throw runtime_error("File " + filePath + " does not hold a neural network.");
     ifs.seekg(0);
-    ifs.imbue(locale(ifs.getloc(), new NonFiniteFloatReader()));
+    ifs.imbue(locale(locale::classic(), new NonFiniteFloatReader()));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     if (ifs.get() != '\n') // the end of line written after the last value
-- 
2.43.0

