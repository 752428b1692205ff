From 312b65ca2f87fcdecd70e03e8bf3c95171daf5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 001/132] fix: put the contents of multi-dimensional slices in
 the right bins

---
 src/histogram/Histogram.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index db9cbb8..a26972f 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -384,13 +384,14 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
     Recurse(newAxisNames.size(), binsEachAxis, coords, localIdx, newAxisIndexes);
     std::cout << "Number of combinations found: " << localIdx.size() << std::endl;
 
-    // for every combination, obtain the global flat idx in original histogram
-    size_t bin = 0;
+    // for every combination, obtain the global flat idx in original histogram, and in the slice
+    std::vector<size_t> sliceCoords(newAxisIndexes.size());
     for (size_t idx = 0; idx < localIdx.size(); idx++)
     {
         size_t oldGlobalBin = fAxes.FlattenIndices(localIdx.at(idx));
-        slice.AddBinContent(bin, fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
-        bin += 1;
+        for (size_t i = 0; i < newAxisIndexes.size(); i++)
+            sliceCoords[i] = localIdx.at(idx).at(newAxisIndexes[i]);
+        slice.AddBinContent(slice.FlattenIndices(sliceCoords), fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
     }
 
     return slice;
-- 
2.43.0


From 4a1d886bc6bb0eeaf6000d21f9f660f331fd03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 002/132] fix: leave the left operand of
 SparseMatrix::operator* alone

---
 src/core/SparseMatrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index d4a8284..61009f0 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -74,8 +74,9 @@ SparseMatrix::operator*=(const SparseMatrix &other_)
 SparseMatrix
 SparseMatrix::operator*(const SparseMatrix &other_)
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
-    return *this;
+    SparseMatrix product(*this);
+    product *= other_;
+    return product;
 }
 
 void SparseMatrix::SetZeros()
-- 
2.43.0


From 93133530f09809a1e46b1449ba693d9dde7ab8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 003/132] fix: keep the shape of matrix products up to date

---
 src/core/DenseMatrix.cpp  | 4 ++++
 src/core/SparseMatrix.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index 83c7080..de85d08 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -61,7 +61,11 @@ DenseMatrix::operator()(const std::vector<double> &input_) const
 DenseMatrix
 DenseMatrix::operator*=(const DenseMatrix &other_)
 {
+    if (fNCols != other_.fNRows)
+        throw DimensionError("DenseMatrix::operator*=", fNCols, other_.fNRows);
+    const size_t nCols = other_.fNCols;
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = nCols;
     return *this;
 }
 
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index 61009f0..82dcfe8 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -67,7 +67,11 @@ SparseMatrix::operator()(const std::vector<double> &input_) const
 SparseMatrix
 SparseMatrix::operator*=(const SparseMatrix &other_)
 {
+    if (fNCols != other_.fNRows)
+        throw DimensionError("SparseMatrix::operator*=", fNCols, other_.fNRows);
+    const size_t nCols = other_.fNCols;
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = nCols;
     return *this;
 }
 
-- 
2.43.0


From b92132821a3c4c0e6d6fdc991fa47f18beda8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 004/132] fix: refuse the identity of a non-square DenseMatrix

---
 src/core/DenseMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index de85d08..d6d5015 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -78,7 +78,7 @@ void DenseMatrix::SetZeros()
 
 void DenseMatrix::SetToIdentity()
 {
-    if (!fNRows || !fNCols)
+    if (!fNRows || !fNCols || fNCols != fNRows)
         throw DimensionError(Formatter() << "DenseMatrix:: Can't set identity as matrix is not square. (rows,cols) : (" << fNRows << "," << fNCols << ")");
     fArmaMat.eye();
 }
-- 
2.43.0


From 6979bf6edddfd72bcfad43e04f383eeae639b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 005/132] fix: refuse out of range elements in
 SparseMatrix::SetComponents

---
 src/core/SparseMatrix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index 82dcfe8..f9c8e78 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -105,6 +105,14 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
     if (rowIndices_.size() != values_.size() || colIndices_.size() != values_.size())
         throw DimensionError("SparseMatrix::SetComponent() #values != #locations");
 
+    for (size_t i = 0; i < values_.size(); i++)
+        if (rowIndices_[i] >= fNRows || colIndices_[i] >= fNCols)
+            throw NotFoundError(Formatter()
+                                << "Attempted out of bounds access on  matrix ("
+                                << rowIndices_[i] << "," << colIndices_[i] << ")."
+                                << "Matrix is (" << fNRows << "x" << fNCols
+                                << ")");
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
-- 
2.43.0


From 1e23a820b1fc5b2c1493a9c835374c38f7ebacc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 006/132] fix: refuse access by name to events without
 observable names

---
 src/data/Event.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7890b18..e74a97d 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -56,11 +56,12 @@ void Event::SetDatum(const std::string &name_, double val_)
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &obsNames = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(obsNames.begin(), obsNames.end(), name_);
+    if (it == obsNames.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    SetDatum(it - fObsNames->begin(), val_);
+    SetDatum(it - obsNames.begin(), val_);
 }
 
 double
@@ -68,11 +69,12 @@ Event::GetDatum(const std::string &name_) const
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &obsNames = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(obsNames.begin(), obsNames.end(), name_);
+    if (it == obsNames.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    return GetDatum(it - fObsNames->begin());
+    return GetDatum(it - obsNames.begin());
 }
 
 std::vector<double>
-- 
2.43.0


From 3bcc4fa97d68973138c37187c3e033dad367b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 007/132] fix: refuse writes to non-existent observables of an
 event

---
 src/data/Event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index e74a97d..7baf6ce 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -43,7 +43,7 @@ void Event::SetDatum(size_t index_, double val_)
 {
     try
     {
-        fObservations[index_] = val_;
+        fObservations.at(index_) = val_;
     }
 
     catch (const std::out_of_range &e_)
-- 
2.43.0


From c299b2fe2ecff4bb41be17109be0fbb66baae48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 008/132] fix: refuse a data map of an event whose names and
 values disagree

---
 src/data/Event.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7baf6ce..3e55912 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -22,6 +22,9 @@ Event::GetData() const
 std::map<std::string, double>
 Event::GetDataMap() const
 {
+    if (GetObservableNames().size() != fObservations.size())
+        throw RepresentationError(Formatter() << "Event::GetDataMap event has " << fObservations.size() << " observables but "
+                                              << GetObservableNames().size() << " names");
     return CreateMap(GetObservableNames(), fObservations);
 }
 
-- 
2.43.0


From fc057ea377c9886964f2721591c8c04fa2c3989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 009/132] fix: leave the left operand alone when data sets are
 added

---
 src/data/OXSXDataSet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 7b93c19..b1e3861 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -52,10 +52,11 @@ OXSXDataSet::GetObservableNames() const
 OXSXDataSet
 OXSXDataSet::operator+(const OXSXDataSet &other_)
 {
+    OXSXDataSet sum(*this);
     for (size_t i = 0; i < other_.GetNEntries(); i++)
-        AddEntry(other_.GetEntry(i));
+        sum.AddEntry(other_.GetEntry(i));
 
-    return *this;
+    return sum;
 }
 
 void OXSXDataSet::Reserve(int i)
-- 
2.43.0


From 97a8cb74916ab49fe84859ccc8c4ef72d0e438c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 010/132] fix: link the entries of a copied data set to its own
 names

---
 src/data/OXSXDataSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index b1e3861..26b15e5 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -24,7 +24,10 @@ Event OXSXDataSet::GetEntry(size_t eventIndex_) const
 {
     try
     {
-        return fData.at(eventIndex_);
+        // copies of this data set must not hand out pointers to the original's names
+        Event event(fData.at(eventIndex_));
+        event.SetObservableNames(&fObservableNames);
+        return event;
     }
     catch (std::out_of_range &)
     {
-- 
2.43.0


From b1bdad7bfdf27a510282c45ea37baa6a6a6abaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 011/132] fix: define the cut log's remainder accessors

---
 src/cut/CutLog.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 514ea05..62c2f87 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -51,6 +51,18 @@ CutLog::GetCutPercentages() const
     return fCutPercentages;
 }
 
+std::vector<int>
+CutLog::GetRemainderCounts() const
+{
+    return fRemainderCounts;
+}
+
+std::vector<double>
+CutLog::GetRemainderPercentages() const
+{
+    return fRemainderPercentages;
+}
+
 std::vector<std::string>
 CutLog::GetCutNames() const
 {
-- 
2.43.0


From af8360bce50876b44eab6493f69aefc74f2e9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 012/132] fix: report a cut log file that cannot be opened

---
 src/cut/CutLog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 62c2f87..e672636 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -132,11 +132,11 @@ void CutLog::SaveAs(const std::string &title_,
                     const std::string &path_)
 {
     std::ofstream fs;
-    if (fs.is_open())
+    fs.open(path_.c_str());
+    if (!fs.is_open())
     {
         throw IOError("CutLog::SaveAs - couldn't open file" + path_);
     }
-    fs.open(path_.c_str());
     fs << "-----------------------------------"
        << "-----------------------------------"
        << std::endl
-- 
2.43.0


From 1ec20a7f2682bb4b17bbf24a9304bb11455ff315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 013/132] fix: survive self-assignment of a cut collection

---
 src/cut/CutCollection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 2853c10..f631ebf 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -48,6 +48,9 @@ CutCollection::CutCollection(const CutCollection &other_)
 CutCollection &
 CutCollection::operator=(const CutCollection &other_)
 {
+  if (this == &other_)
+    return *this;
+
   for (size_t i = 0; i < fCuts.size(); i++)
     delete fCuts.at(i);
 
-- 
2.43.0


From a2946fa83e587ecdfdfc7ca0afc5e69de930fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 014/132] fix: define EventReconvolution::GetCorrection

---
 src/eventSystematic/EventReconvolution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventSystematic/EventReconvolution.cpp b/src/eventSystematic/EventReconvolution.cpp
index 9a4486a..5a5c756 100644
--- a/src/eventSystematic/EventReconvolution.cpp
+++ b/src/eventSystematic/EventReconvolution.cpp
@@ -23,6 +23,12 @@ Event EventReconvolution::operator()(const Event &event_)
     return newEvent;
 }
 
+double
+EventReconvolution::GetCorrection() const
+{
+    return fCorrection;
+}
+
 void EventReconvolution::SetCorrection(double correction_)
 {
     if (correction_ < 0)
-- 
2.43.0


From d06c38dd33fdff7fc2e7e793b56b6361f4cbe826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 015/132] fix: work out the bin mapping again when a systematic
 is given new axes or observables

---
 src/systematic/Convolution.h   | 1 +
 src/systematic/Scale.h         | 1 +
 src/systematic/ScaleFunction.h | 1 +
 src/systematic/Shape.h         | 1 +
 src/systematic/Shift.h         | 1 +
 src/systematic/Systematic.cpp  | 3 +++
 src/systematic/Systematic.h    | 4 ++++
 7 files changed, 12 insertions(+)

diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 5cc7a2d..beafb71 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -51,6 +51,7 @@ private:
    AxisCollection DetermineAxisSubCollection(const std::vector<size_t> &rel_indices) const;
    size_t BlockedBinningIndex(size_t bin_index, const std::vector<size_t> &relativeIndices) const;
    void CacheIndexPermutations();
+   void ResetBinMapping() { fCachedIndexPermutations = false; }
    void ConstructSubmatrix(std::vector<long long unsigned int> &column_indices, std::vector<long long unsigned int> &row_indices,
                            std::vector<double> &vals) const;
    void MakeFullMatrix(const std::vector<long long unsigned int> &column_indices, const std::vector<long long unsigned int> &row_indices,
diff --git a/src/systematic/Scale.h b/src/systematic/Scale.h
index eefca3e..1f08ca0 100644
--- a/src/systematic/Scale.h
+++ b/src/systematic/Scale.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ResetBinMapping() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/ScaleFunction.h b/src/systematic/ScaleFunction.h
index 52e9d70..c056983 100644
--- a/src/systematic/ScaleFunction.h
+++ b/src/systematic/ScaleFunction.h
@@ -51,6 +51,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ResetBinMapping() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 4f25d4c..59eb5c6 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -53,6 +53,7 @@ private:
     bool fCachedBinMapping;
 
     void CacheBinMapping();
+    void ResetBinMapping() { fCachedBinMapping = false; }
 };
 
 #endif
diff --git a/src/systematic/Shift.h b/src/systematic/Shift.h
index 7e4a0e3..84c0e17 100644
--- a/src/systematic/Shift.h
+++ b/src/systematic/Shift.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ResetBinMapping() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &shiftAxis, double shiftedLow,
                              double shiftedHigh, size_t bin_test);
 };
diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index c83a9df..90a3bf6 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -40,6 +40,7 @@ Systematic::GetResponse() const
 void Systematic::SetTransformationObs(const ObsSet &rep_)
 {
     fTransObs = rep_;
+    ResetBinMapping();
 }
 
 ObsSet
@@ -51,6 +52,7 @@ Systematic::GetTransformationObs() const
 void Systematic::SetDistributionObs(const ObsSet &rep_)
 {
     fDistObs = rep_;
+    ResetBinMapping();
 }
 
 ObsSet
@@ -94,5 +96,6 @@ Systematic::GetAxes() const
 void Systematic::SetAxes(const AxisCollection &axes_)
 {
     fAxes = axes_;
+    ResetBinMapping();
     SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
 }
diff --git a/src/systematic/Systematic.h b/src/systematic/Systematic.h
index 6a5d323..a8aeb76 100644
--- a/src/systematic/Systematic.h
+++ b/src/systematic/Systematic.h
@@ -43,6 +43,10 @@ protected:
    AxisCollection fAxes; // The full bin definition of the distributions
    ObsSet fTransObs;     // the observables to tranform
    ObsSet fDistObs;      // the full set of observables for the distriubtion to act on
+
+   // called when the axes or observables change: forget anything worked out from the old ones
+   virtual void ResetBinMapping() {}
+
    // obs of the pdfs it will act on, needs to be at least the lenth of the
    // systematics representation
 
-- 
2.43.0


From 860bd0049453eaffe2ca2a82bd2b5905e5d15202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 016/132] fix: clear the old response when a shape systematic
 is constructed

---
 src/systematic/Shape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index b210796..8fac7da 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -55,6 +55,7 @@ void Shape::Construct()
 
     // Finally, construct the full response matrix by setting the diagonal
     // elements to their appropriate value, using the bin ID mapping to help.
+    fResponse.SetZeros();
     for (size_t obs_bin_id = 0; obs_bin_id < fAxes.GetNBins(); obs_bin_id++)
     {
         fResponse.SetComponent(obs_bin_id, obs_bin_id,
-- 
2.43.0


From b44bd69876e1ead9efd9102af54387b3cbcd6d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 017/132] fix: respect the order of the observables a
 convolution transforms

---
 src/systematic/Convolution.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b22318f..edeb4ed 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -163,22 +163,17 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
      * convert to the bin number that would be used if we asserted that
      * we counted in the transformed axes first.
      */
-    if (relativeIndices.size() == fAxes.GetNDimensions())
-    {
-        return bin_index; // case where all axes are being transformed is trivial!
-    }
     // First - unpack indices for each axis
     const std::vector<size_t> bin_idxs = fAxes.UnpackIndices(bin_index);
-    // Now split these indices into those within the transforing sub-collection, and those which aren't
+    // Now split these indices into those within the transforing sub-collection (in the order of its
+    // axes), and those which aren't
     std::vector<size_t> bin_idxs_sub;
+    for (size_t i = 0; i < relativeIndices.size(); i++)
+        bin_idxs_sub.push_back(bin_idxs.at(relativeIndices.at(i)));
     std::vector<size_t> bin_idxs_notsub;
     for (size_t ax_idx = 0; ax_idx < fAxes.GetNDimensions(); ax_idx++)
     {
-        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) != std::end(relativeIndices))
-        {
-            bin_idxs_sub.push_back(bin_idxs.at(ax_idx));
-        }
-        else
+        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) == std::end(relativeIndices))
         {
             bin_idxs_notsub.push_back(bin_idxs.at(ax_idx));
         }
@@ -186,7 +181,7 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
     // Re-pack each individually, the combine to get bin index if going through transformed
     // sub-collection first
     const size_t idx_sub = fSubMapAxes.FlattenIndices(bin_idxs_sub);
-    const size_t idx_notsub = fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
+    const size_t idx_notsub = bin_idxs_notsub.empty() ? 0 : fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
     const size_t idx_blocked = idx_sub + idx_notsub * fSubMapAxes.GetNBins();
 
     return idx_blocked;
-- 
2.43.0


From 90409418667ecdfe30426acafe99b82a54fb65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 018/132] fix: keep the content when a scale function is
 decreasing

---
 src/systematic/ScaleFunction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index bb5b815..1d30cc5 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -1,4 +1,5 @@
 #include <ScaleFunction.h>
+#include <algorithm>
 #include <sstream>
 #include <DoubleParameter.h>
 #include <Exceptions.h>
@@ -47,8 +48,11 @@ void ScaleFunction::Construct()
     for (size_t bin = 0; bin < scaleAxis.GetNBins(); bin++)
     {
         // First - work out edges of scaled bin interval along axis
-        const double scaledLow = fScaleFunc(fParamDict, scaleAxis.GetBinLowEdge(bin));
-        const double scaledHigh = fScaleFunc(fParamDict, scaleAxis.GetBinHighEdge(bin));
+        // (a decreasing function swaps them over)
+        const double edge1 = fScaleFunc(fParamDict, scaleAxis.GetBinLowEdge(bin));
+        const double edge2 = fScaleFunc(fParamDict, scaleAxis.GetBinHighEdge(bin));
+        const double scaledLow = std::min(edge1, edge2);
+        const double scaledHigh = std::max(edge1, edge2);
         // Then - which unscaled bins do these edges lie in?
         const size_t scaledLowIndex = scaleAxis.FindBin(scaledLow);
         const size_t scaledHighIndex = scaleAxis.FindBin(scaledHigh);
-- 
2.43.0


From 32a24155fa420b37e760f9afbfe18c4e791c1792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 019/132] fix: set a sparse matrix from an empty list of
 elements

---
 src/core/SparseMatrix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index f9c8e78..f7e48ee 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -113,6 +113,12 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
                                 << "Matrix is (" << fNRows << "x" << fNCols
                                 << ")");
 
+    if (values_.empty())
+    {
+        fArmaMat = arma::sp_mat(fNRows, fNCols);
+        return;
+    }
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
-- 
2.43.0


From 47ba9a40ead692f528a169c0aa0f9523c28153ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 020/132] fix: refuse parameter access to a convolution without
 a kernel

---
 src/systematic/Convolution.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index edeb4ed..40bf520 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -230,22 +230,30 @@ void Convolution::CacheIndexPermutations()
 
 void Convolution::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::RenameParameter", "Have you set the function?");
     fDist->RenameParameter(old_, new_);
 }
 
 void Convolution::SetParameter(const std::string &name_, double value_)
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::SetParameter", "Have you set the function?");
     fDist->SetParameter(name_, value_);
 }
 
 double
 Convolution::GetParameter(const std::string &name_) const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::GetParameter", "Have you set the function?");
     return fDist->GetParameter(name_);
 }
 
 void Convolution::SetParameters(const ParameterDict &ps_)
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::SetParameters", "Have you set the function?");
     try
     {
         fDist->SetParameters(ps_);
@@ -259,18 +267,24 @@ void Convolution::SetParameters(const ParameterDict &ps_)
 ParameterDict
 Convolution::GetParameters() const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::GetParameters", "Have you set the function?");
     return fDist->GetParameters();
 }
 
 size_t
 Convolution::GetParameterCount() const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::GetParameterCount", "Have you set the function?");
     return fDist->GetParameterCount();
 }
 
 std::set<std::string>
 Convolution::GetParameterNames() const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::GetParameterNames", "Have you set the function?");
     return fDist->GetParameterNames();
 }
 
-- 
2.43.0


From a4b6c84e0a0fdf83e2b1a04b2fa57366be8f484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 021/132] fix: start a renormalisation with a factor of one

---
 src/systematic/Renorm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systematic/Renorm.h b/src/systematic/Renorm.h
index d44c918..d8c41bf 100644
--- a/src/systematic/Renorm.h
+++ b/src/systematic/Renorm.h
@@ -9,7 +9,7 @@
 class Renorm : public Systematic
 {
 public:
-Renorm(const std::string &name_) : fParamDict(), fName(name_){}
+Renorm(const std::string &name_) : fScaleFactor(1), fParamDict(), fName(name_){}
     void Construct();
 
     void SetScaleFactor(double);
-- 
2.43.0


From 6eb4bbe4399031285dc71c43d96c07230abb3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 022/132] fix: initialise the group count of SystematicManager

---
 src/fitutil/SystematicManager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 5cf43af..0c54ed9 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -23,6 +23,7 @@ public:
    {
       std::vector<Systematic *> holder;
       fGroups[""] = holder;
+      fNGroups = fGroups.size();
    }
    ~SystematicManager() {}
 
-- 
2.43.0


From e02fbd79b34702884b4b7e6cdb0d69876a6625d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 023/132] fix: refuse unknown and duplicate systematic groups
 without reading outside them

---
 src/fitutil/SystematicManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 4b5fb6c..dd948d0 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -113,7 +113,7 @@ void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
             if (allname.find(group.at(j)->GetName()) == allname.end())
                 allname.insert(group.at(j)->GetName());
             else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(i)->GetName() << " is in more than one group.");
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(j)->GetName() << " is in more than one group.");
         }
     }
     // Check the "" group only after everything else has been checked and
@@ -191,7 +191,7 @@ SystematicManager::GetNSystematicsInGroup(const std::string &name_) const
 {
     try
     {
-        return fGroups.find(name_)->second.size();
+        return fGroups.at(name_).size();
     }
     catch (const std::out_of_range &e_)
     {
-- 
2.43.0


From c70b7d5e84b867cf4ad44c49000b08f0467c3281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 024/132] fix: report the normalisation of distributions
 without systematics

---
 src/fitutil/SystematicManager.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index dd948d0..279ecea 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -150,12 +150,17 @@ void SystematicManager::DistortEDs(const std::vector<BinnedED> &OrignalEDs_,
     {
         const std::string name = OrignalEDs_.at(j).GetName();
 
-        if (fEDGroups.find(name) == fEDGroups.end())
-            continue;
-
         // Copy EDs because WorkingED_s have to have the same binning as OrignalEDs_s.
         WorkingEDs_[j] = OrignalEDs_.at(j);
 
+        // No systematics act on distributions that haven't been added
+        if (fEDGroups.find(name) == fEDGroups.end())
+        {
+            if (norms != nullptr)
+                norms->at(j) = WorkingEDs_.at(j).Integral();
+            continue;
+        }
+
         // If we haven't explicitly added the "" group to this dist's fEDGroups, apply that group first
         if (std::find(fEDGroups.at(name).begin(), fEDGroups.at(name).end(), "") == fEDGroups.at(name).end() && fGroups.at("").size())
         {
-- 
2.43.0


From 0b0d15f97fd2922467ae240a38b434c4d58369d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 025/132] fix: replace the bin map when the shrinker is given a
 new distribution

---
 src/fitutil/BinnedEDShrinker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index eb585d5..1df3395 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -70,6 +70,11 @@ void BinnedEDShrinker::SetBinMap(const BinnedED &dist_)
 
   size_t nDims = dist_.GetNDims();
 
+  // forget any previous map
+  fNewAxes = AxisCollection();
+  fBinVec.clear();
+  fUseContent.clear();
+
   // FIXME Add a check to see if the non zero entries of fBuffers are in the pdf and give warning
 
   // 1. Build new axes. ShrinkPdf method just makes a copy if buffer size is zero
-- 
2.43.0


From 0d1da8da8eee4d22783733e4308663f3d7715535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 026/132] fix: refuse buffers whose sum overflows

---
 src/fitutil/BinnedEDShrinker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index 1df3395..723b744 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -39,7 +39,7 @@ BinnedEDShrinker::ShrinkAxis(const BinAxis &axis_, const unsigned lowerBuff_,
   if (!lowerBuff_ && !upperBuff_)
     return axis_;
 
-  if ((lowerBuff_ + upperBuff_) >= axis_.GetNBins())
+  if ((size_t)lowerBuff_ + upperBuff_ >= axis_.GetNBins())
     throw ValueError(Formatter() << "BinnedEDShrinker::Buffersize ("
                                  << lowerBuff_ << ", " << upperBuff_ << ")"
                                  << " exceeds number of bins (" << axis_.GetNBins() << ")");
-- 
2.43.0


From d4eceea682a65b7b59bf7e91eaa8f0a7e7a2c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 027/132] fix: pair each pdf with its own normalisation
 parameter

---
 src/fitutil/BinnedEDManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 6de255d..ee9f5fb 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -315,11 +315,13 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
         size_t j = 0;
         for (size_t i = 0; i < fNormalisations.size(); i++)
         {
+            if (fAllowNormsFittable.at(i) == FALSE)
+                continue; // has no fittable norm
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
             {
                 fNormalisations[i] = fFittableNorms.at(j);
-                j++;
             }
+            j++;
         }
     }
 }
-- 
2.43.0


From b59977f4ed9e8c402d6d82d617828a09ac9b65b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 028/132] fix: set the number of dimensions of BinnedEDManager

---
 src/fitutil/BinnedEDManager.cpp | 2 ++
 src/fitutil/BinnedEDManager.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index ee9f5fb..5947e81 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -125,6 +125,8 @@ BinnedEDManager::GetOriginalPdf(size_t index_) const
 
 void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_fitting_status)
 {
+    if (!fOriginalPdfs.size())
+        fNDims = pdf_.GetNDims();
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 18ccce7..76558b5 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,7 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
-- 
2.43.0


From 77a8b0820c5b0e399e0845853ccb8cb4cad1fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 029/132] fix: keep set normalisations of indirect pdfs

---
 src/fitutil/BinnedEDManager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 5947e81..e26097d 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -86,6 +86,14 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
     if (normalisations_.size() != fOriginalPdfs.size())
         throw LogicError("BinnedEDManager: number of norms doesn't match #pdfs");
     fNormalisations = normalisations_;
+
+    // the fittable ones are held separately if there are others
+    size_t j = 0;
+    for (size_t i = 0; i < fNormalisations.size(); i++)
+    {
+        if (fAllowNormsFittable.at(i) != FALSE)
+            fFittableNorms.at(j++) = fNormalisations.at(i);
+    }
 }
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
@@ -136,9 +144,12 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     {
         fFittableNorms.push_back(0);
     }
-    if (norm_fitting_status != DIRECT)
+    if (norm_fitting_status != DIRECT && fAllNormsDirFittable)
     {
+        // so far the norms were fitted directly, from now on fFittableNorms holds them
         fAllNormsDirFittable = false;
+        for (size_t i = 0; i + 1 < fOriginalPdfs.size(); i++)
+            fFittableNorms.at(i) = fNormalisations.at(i);
     }
     RegisterParameters();
 }
-- 
2.43.0


From 92e26517fd4eae3e3e1a9f95b9b8f670ef496c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 030/132] fix: report the normalisation of pdfs that hold it
 themselves

---
 src/fitutil/BinnedEDManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index e26097d..a2d9bcd 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -138,7 +138,8 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
-    fNormalisations.resize(fOriginalPdfs.size(), 0);
+    // without a fittable norm, the pdf itself holds its normalisation
+    fNormalisations.resize(fOriginalPdfs.size(), norm_fitting_status == FALSE ? pdf_.Integral() : 0);
     fAllowNormsFittable.push_back(norm_fitting_status);
     if (norm_fitting_status)
     {
-- 
2.43.0


From 3f89229d7c1fdf2387f883da155bdf1bcd568c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 031/132] fix: keep renamed normalisations when distributions
 are added

---
 src/fitutil/BinnedEDManager.cpp | 24 ++++++------------------
 src/fitutil/BinnedEDManager.h   |  1 +
 src/fitutil/EDManager.cpp       |  9 ++++-----
 src/fitutil/EDManager.h         |  1 +
 4 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index a2d9bcd..3e25612 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -3,6 +3,7 @@
 #include <BinnedEDShrinker.h>
 #include <BinnedED.h>
 #include <Exceptions.h>
+#include <algorithm>
 #include <sstream>
 
 unsigned
@@ -152,6 +153,8 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
         for (size_t i = 0; i + 1 < fOriginalPdfs.size(); i++)
             fFittableNorms.at(i) = fNormalisations.at(i);
     }
+    if (norm_fitting_status)
+        fNormNames.push_back(pdf_.GetName());
     RegisterParameters();
 }
 
@@ -255,6 +258,7 @@ void BinnedEDManager::SetName(const std::string &n_)
 void BinnedEDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fNormNames.begin(), fNormNames.end(), old_, new_);
 }
 
 void BinnedEDManager::SetParameter(const std::string &name_, double value_)
@@ -294,26 +298,10 @@ BinnedEDManager::GetParameterNames() const
 void BinnedEDManager::RegisterParameters()
 {
     fParameterManager.Clear();
-    std::vector<std::string> parameterNames;
     if (fAllNormsDirFittable)
-    {
-        for (size_t i = 0; i < fOriginalPdfs.size(); i++)
-        {
-            parameterNames.push_back(fOriginalPdfs.at(i).GetName());
-        }
-        fParameterManager.AddContainer(fNormalisations, parameterNames);
-    }
+        fParameterManager.AddContainer(fNormalisations, fNormNames);
     else
-    {
-        for (size_t i = 0; i < fOriginalPdfs.size(); i++)
-        {
-            if (fAllowNormsFittable.at(i))
-            {
-                parameterNames.push_back(fOriginalPdfs.at(i).GetName());
-            }
-        }
-        fParameterManager.AddContainer(fFittableNorms, parameterNames);
-    }
+        fParameterManager.AddContainer(fFittableNorms, fNormNames);
 }
 
 void BinnedEDManager::ReassertNorms(bool calcing_binprob)
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 76558b5..2440a25 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -65,6 +65,7 @@ private:
    std::vector<double> fNormalisations;
    std::vector<NormFittingStatus> fAllowNormsFittable;
    std::vector<double> fFittableNorms;
+   std::vector<std::string> fNormNames; // current names of the fittable norms
    bool fAllNormsDirFittable;
    int fNPdfs;
    size_t fNDims;
diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 79054c4..68d4a2e 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -2,6 +2,7 @@
 #include <EventDistribution.h>
 #include <Event.h>
 #include <Exceptions.h>
+#include <algorithm>
 
 EDManager::~EDManager()
 {
@@ -21,6 +22,7 @@ void EDManager::AddDist(EventDistribution *pdf_)
     fDists.push_back(pdf_->Clone());
     fNDists++;
     fNormalisations.resize(fNDists, 0);
+    fNormNames.push_back(pdf_->GetName());
     RegisterParameters();
 }
 
@@ -72,11 +74,7 @@ EDManager::GetNDists() const
 void EDManager::RegisterParameters()
 {
     fParameterManager.Clear();
-    std::vector<std::string> parameterNames;
-    for (size_t i = 0; i < fDists.size(); i++)
-        parameterNames.push_back(fDists.at(i)->GetName());
-
-    fParameterManager.AddContainer(fNormalisations, parameterNames);
+    fParameterManager.AddContainer(fNormalisations, fNormNames);
 }
 
 std::string
@@ -93,6 +91,7 @@ void EDManager::SetName(const std::string &n_)
 void EDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fNormNames.begin(), fNormNames.end(), old_, new_);
 }
 
 void EDManager::SetParameter(const std::string &name_, double value_)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 53d468e..f165a4f 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -44,6 +44,7 @@ private:
    size_t fNDims;
    std::vector<EventDistribution *> fDists;
    std::vector<double> fNormalisations;
+   std::vector<std::string> fNormNames; // current names of the normalisations
 
    std::string fName; // component name
    void RegisterParameters();
-- 
2.43.0


From a41554ebd51265a4cac90bfdce5cde80e0f34971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 032/132] fix: register the parameters of copied
 BinnedEDManagers

---
 src/fitutil/BinnedEDManager.cpp | 22 ++++++++++++++++++++++
 src/fitutil/BinnedEDManager.h   |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 3e25612..cc132b2 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -6,6 +6,28 @@
 #include <algorithm>
 #include <sstream>
 
+BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_) : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0)
+{
+    *this = other_;
+}
+
+BinnedEDManager &
+BinnedEDManager::operator=(const BinnedEDManager &other_)
+{
+    fOriginalPdfs = other_.fOriginalPdfs;
+    fWorkingPdfs = other_.fWorkingPdfs;
+    fNormalisations = other_.fNormalisations;
+    fAllowNormsFittable = other_.fAllowNormsFittable;
+    fFittableNorms = other_.fFittableNorms;
+    fNormNames = other_.fNormNames;
+    fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fNPdfs = other_.fNPdfs;
+    fNDims = other_.fNDims;
+    fName = other_.fName;
+    RegisterParameters(); // for this object's own norms
+    return *this;
+}
+
 unsigned
 BinnedEDManager::GetNPdfs() const
 {
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 2440a25..aa61a8f 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -23,6 +23,8 @@ class BinnedEDManager : public FitComponent
 {
 public:
    BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
+   BinnedEDManager(const BinnedEDManager &);
+   BinnedEDManager &operator=(const BinnedEDManager &);
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
-- 
2.43.0


From 9f9880f52a1babd6153ac1a1e132afcf1d509441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 033/132] fix: give copied EDManagers their own distributions

---
 src/fitutil/EDManager.cpp | 24 ++++++++++++++++++++++++
 src/fitutil/EDManager.h   |  2 ++
 2 files changed, 26 insertions(+)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 68d4a2e..7556a9a 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -4,6 +4,30 @@
 #include <Exceptions.h>
 #include <algorithm>
 
+EDManager::EDManager(const EDManager &other_) : fNDists(0), fNDims(0)
+{
+    *this = other_;
+}
+
+EDManager &
+EDManager::operator=(const EDManager &other_)
+{
+    std::vector<EventDistribution *> dists;
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        dists.push_back(other_.fDists.at(i)->Clone());
+    fDists.swap(dists);
+    for (size_t i = 0; i < dists.size(); i++)
+        delete dists[i];
+
+    fNDists = other_.fNDists;
+    fNDims = other_.fNDims;
+    fNormalisations = other_.fNormalisations;
+    fNormNames = other_.fNormNames;
+    fName = other_.fName;
+    RegisterParameters(); // for this object's own norms
+    return *this;
+}
+
 EDManager::~EDManager()
 {
     for (size_t i = 0; i < fDists.size(); i++)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index f165a4f..428d79a 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -11,6 +11,8 @@ class EDManager : public FitComponent
 {
 public:
    EDManager() : fNDists(0), fNDims(0), fName("norms") {}
+   EDManager(const EDManager &);
+   EDManager &operator=(const EDManager &);
    ~EDManager(); // free pdf copies
 
    void AddDist(EventDistribution *); // take a copy
-- 
2.43.0


From 852b9fe6bb4fcf06c27a45a462bfc37299b990b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 034/132] fix: free parameters replaced in ParameterManager

---
 src/core/ParameterManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index c26c45d..6367fd4 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -54,12 +54,14 @@ ParameterManager::GetParameterCount() const
 
 void ParameterManager::Add(FitParameter *p_, const std::string &n_)
 {
-    fParamPtrs[n_] = p_;
+    FitParameter *&slot = fParamPtrs[n_];
+    delete slot; // replaces any parameter already called that
+    slot = p_;
 }
 
 void ParameterManager::AddDouble(double &d_, const std::string &n_)
 {
-    fParamPtrs[n_] = new DoubleParameter(d_);
+    Add(new DoubleParameter(d_), n_);
 }
 
 void ParameterManager::Clear()
-- 
2.43.0


From e26b92ace863c8238ff4c52ab3e9582d62c64a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 035/132] fix: change no parameter when the set dictionary is
 incomplete

---
 src/core/ParameterManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index 6367fd4..43a3cb6 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -20,6 +20,9 @@ void ParameterManager::SetParameters(const ParameterDict &params_)
     std::set<std::string> names = GetParameterNames();
     try
     {
+        // check they are all there before any is changed
+        for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
+            params_.at(*it);
         for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
             fParamPtrs.at(*it)->Set(params_.at(*it));
     }
-- 
2.43.0


From e511113101798f5d503948b80f260819bd6f1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 036/132] fix: change no component when the set dictionary is
 incomplete

---
 src/core/ComponentManager.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/ComponentManager.cpp b/src/core/ComponentManager.cpp
index e17f5bc..9f8b381 100644
--- a/src/core/ComponentManager.cpp
+++ b/src/core/ComponentManager.cpp
@@ -18,7 +18,15 @@ void ComponentManager::SetParameters(const ParameterDict &params_)
     if (!params_.size())
         return;
 
-    // let them each take what they need, they'll complain if something is missing
+    // check that nothing is missing before any component changes
+    const std::set<std::string> names = GetParameterNames();
+    for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
+    {
+        if (!params_.count(*it))
+            throw ParameterError("ComponentManager: parameter " + *it + " is missing from the set dictionary, it contains: \n" + ToString(GetKeys(params_)));
+    }
+
+    // let them each take what they need
     for (size_t i = 0; i < fComponents.size(); i++)
         fComponents[i]->SetParameters(params_);
 }
-- 
2.43.0


From 161e5cf7a3ff058a2b32c8a6e81a6a5a37b86626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 037/132] fix: decide for each pdf whether it has already been
 shrunk

---
 src/fitutil/BinnedEDManager.cpp | 32 +++++++++++++-------------------
 src/fitutil/BinnedEDShrinker.h  |  1 +
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index cc132b2..0bbe3ba 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -121,11 +121,18 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
 {
-    // If there are no systematics dont do anything
-    //  ( working pdfs = original pdfs from initialisation)
+    // If there are no systematics just undo any previous projection or shrinking
+    //  ( otherwise working pdfs = original pdfs from initialisation)
 
     if (!sysMan_.GetNSystematics())
+    {
+        for (size_t i = 0; i < fWorkingPdfs.size(); i++)
+        {
+            if (fWorkingPdfs.at(i).GetAxes() != fOriginalPdfs.at(i).GetAxes())
+                fWorkingPdfs[i] = fOriginalPdfs.at(i);
+        }
         return;
+    }
     if (fAllNormsDirFittable)
     {
         sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs);
@@ -215,25 +222,12 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
     if (!shrinker_.GetBuffers().size())
         return;
 
-    // If the number of bins in the working PDFs =/= the number of bins in the corresponding original PDF, it's likely the
-    // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
-    // we check if the bins equals the original number minus the shrinking, and if it has we assume the shrinking has already
-    // been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened! For these
-    // tests we assume the buffer and number of bins are the same for all PDFs so just look at the 0th element
-    int bufferBins = 0;
-    std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
-    for (std::map<std::string, std::pair<unsigned, unsigned>>::iterator it = bufferMap.begin(); it != bufferMap.end(); ++it)
-    {
-        bufferBins += it->second.first;
-        bufferBins += it->second.second;
-    }
-    if (fWorkingPdfs.at(0).GetNBins() == fOriginalPdfs.at(0).GetNBins() - bufferBins)
-        return;
-    else if (fWorkingPdfs.at(0).GetNBins() != fOriginalPdfs.at(0).GetNBins() )
-        throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
-
     for (size_t i = 0; i < fWorkingPdfs.size(); i++)
     {
+        // nothing to do for a pdf that has already been shrunk
+        // (e.g. if a buffer is being used without systematics)
+        if (fWorkingPdfs.at(i).GetAxes() == shrinker_.GetShrunkAxes())
+            continue;
 
         const double integral_before = fWorkingPdfs[i].Integral();
         fWorkingPdfs[i] = shrinker_.ShrinkDist(fWorkingPdfs.at(i));
diff --git a/src/fitutil/BinnedEDShrinker.h b/src/fitutil/BinnedEDShrinker.h
index 7471b0f..6c6a028 100644
--- a/src/fitutil/BinnedEDShrinker.h
+++ b/src/fitutil/BinnedEDShrinker.h
@@ -21,6 +21,7 @@ public:
    BinnedED ShrinkDist(const BinnedED &dist_) const;
 
    void SetBinMap(const BinnedED &dist_);
+   const AxisCollection &GetShrunkAxes() const { return fNewAxes; } // of the distribution given to SetBinMap
    void SetBuffer(const std::string &dim_, unsigned lowerBuf_, unsigned upperBuf_);
    std::pair<unsigned, unsigned> GetBuffer(const std::string &) const;
 
-- 
2.43.0


From 264c0dfac15abef019f5e12d22d2e635b89c7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 038/132] fix: shrink data that are given after an evaluation

---
 src/teststat/BinnedNLLH.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8e18591..198053c 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -130,6 +130,7 @@ void BinnedNLLH::BinData()
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
     SetCalculatedDataDist(true);
+    fAlreadyShrunk = false;
     SetSignalCutLog(log);
 }
 
@@ -277,6 +278,7 @@ void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
     SetCalculatedDataDist(true);
+    fAlreadyShrunk = false;
 }
 
 BinnedED
-- 
2.43.0


From 2f4a204f5070b1054377bfe96db5ccd08a850f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 039/132] fix: take the positive root of the Barlow-Beeston
 equation

---
 src/teststat/BinnedNLLH.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 198053c..435037b 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -88,7 +88,7 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = fDataDist.GetBinContent(i) * sigma2 / q;
+            double x2 = (q == 0) ? 0. : -fDataDist.GetBinContent(i) * sigma2 / q;
 
             double beta = (x1 > x2) ? x1 : x2;
 
@@ -105,7 +105,10 @@ BinnedNLLH::Evaluate()
         }
 
         // LogL = mu_i - data * log(update MC) + Beta Penalty + Norm Correction
-        nLogLH = nLogLH - fDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
+        // (without data the second term vanishes, even if the updated MC content is zero)
+        if (fDataDist.GetBinContent(i))
+            nLogLH -= fDataDist.GetBinContent(i) * log(newProb);
+        nLogLH += penalty + newProb;
     }
 
     if (GetDebugMode())
-- 
2.43.0


From df3d1a428400a5cbee508ce761e704f7acb93cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 040/132] fix: refuse pdfs without a generated rate each before
 adding any

---
 src/teststat/BinnedNLLH.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 435037b..c91bf34 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -180,6 +180,8 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
                          const std::vector<NormFittingStatus> *norm_fitting_statuses)
 {
 
+    if (pdfs.size() != genrates_.size())
+        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
     if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
     {
         throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
@@ -226,6 +228,10 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
 {
     if (pdfs.size() != sys_.size())
         throw DimensionError(Formatter() << "BinnedNLLH:: #sys_ != #group_");
+    if (pdfs.size() != genrates_.size())
+        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
+    if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
+        throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
     for (size_t i = 0; i < pdfs.size(); i++)
     {
         if (norm_fitting_statuses != nullptr)
-- 
2.43.0


From 5a9712009b149621e625af94248b9e5030440065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 041/132] fix: refuse correlations of -1 and beyond

---
 src/constraint/BivariateQuadraticConstraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constraint/BivariateQuadraticConstraint.h b/src/constraint/BivariateQuadraticConstraint.h
index 61a336b..13315e8 100644
--- a/src/constraint/BivariateQuadraticConstraint.h
+++ b/src/constraint/BivariateQuadraticConstraint.h
@@ -16,9 +16,9 @@ public:
     // Main constructor
     BivariateQuadraticConstraint(double mean_1, double sigma_1, double mean_2, double sigma_2, double correlation) : fMean1(mean_1), fSigma1(sigma_1), fMean2(mean_2), fSigma2(sigma_2), fCorr(correlation)
     {
-        if (fCorr == 1.)
+        if (!(fCorr > -1. && fCorr < 1.))
         {
-            throw ValueError("BivariateQuadraticConstraint: correlation cannot be equal to 1!");
+            throw ValueError("BivariateQuadraticConstraint: correlation must be between -1 and 1!");
         }
     }
     // Evaluate constraint at a particular pair of values
-- 
2.43.0


From 77fc8edae698daf1ac6c610128d90d5b0c9a87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 042/132] fix: refuse the first bin past the end

---
 src/histogram/AxisCollection.cpp | 6 +++---
 src/histogram/Histogram.cpp      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index c390d1d..5e8fa08 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -160,7 +160,7 @@ bool AxisCollection::HasAxis(const std::string &name_)
 void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinLowEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -177,7 +177,7 @@ void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) c
 void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -193,7 +193,7 @@ void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_)
 
 void AxisCollection::GetBinCentres(size_t bin_, std::vector<double> &output_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index a26972f..8ce80c0 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -109,7 +109,7 @@ Histogram::FindBin(double value) const
 double
 Histogram::GetBinContent(size_t bin_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -118,7 +118,7 @@ Histogram::GetBinContent(size_t bin_) const
 
 void Histogram::AddBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
-- 
2.43.0


From 7cdd27df099fbbe9a8b8c54f560bd3df029fe5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 043/132] fix: refuse indices outside the axes

---
 src/histogram/AxisCollection.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index 5e8fa08..f0665e1 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -94,6 +94,14 @@ AxisCollection::FlattenIndices(const std::vector<size_t> &indices_) const
         throw DimensionError("AxisCollection::FlattenIndices",
                              fNDimensions, indices_.size());
 
+    if (!fNDimensions)
+        throw NotFoundError("AxisCollection::FlattenIndices: there are no axes!");
+
+    for (size_t i = 0; i < fNDimensions; i++)
+        if (indices_[i] >= fAxisNbins[i])
+            throw NotFoundError(Formatter() << "AxisCollection::FlattenIndices: no bin "
+                                            << indices_[i] << " in dimension " << i << "!");
+
     if (fNDimensions == 1)
         return indices_.at(0);
 
@@ -125,15 +133,18 @@ AxisCollection::FindBin(const std::vector<double> &vals_) const
 size_t
 AxisCollection::UnflattenIndex(size_t index_, size_t dim_) const
 {
-    if (fNDimensions == 1)
-        return index_;
-
-    if (index_ >= fNBins)
+    if (dim_ >= fNDimensions)
         throw NotFoundError(Formatter()
                             << "Can't unflatten index in non-existent"
                             << "dimension  "
                             << dim_);
 
+    if (index_ >= fNBins)
+        throw NotFoundError(Formatter() << "Can't unflatten non-existent bin " << index_);
+
+    if (fNDimensions == 1)
+        return index_;
+
     size_t x = 1;
     for (size_t i = dim_ + 1; i < fNDimensions; i++)
         x *= fAxisNbins[i];
-- 
2.43.0


From 04fad52ba7335b75f4d7b7a54b05162335a34e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 044/132] fix: restore the normalisation together with the pdf

---
 src/fitutil/BinnedEDManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 0bbe3ba..6a0f708 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -128,8 +128,11 @@ void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
     {
         for (size_t i = 0; i < fWorkingPdfs.size(); i++)
         {
-            if (fWorkingPdfs.at(i).GetAxes() != fOriginalPdfs.at(i).GetAxes())
-                fWorkingPdfs[i] = fOriginalPdfs.at(i);
+            if (fWorkingPdfs.at(i).GetAxes() == fOriginalPdfs.at(i).GetAxes())
+                continue;
+            fWorkingPdfs[i] = fOriginalPdfs.at(i);
+            if (fAllowNormsFittable.at(i) == FALSE)
+                fNormalisations[i] = fOriginalPdfs.at(i).Integral();
         }
         return;
     }
-- 
2.43.0


From ad0a279aeb2af392e4f38daf2e0fee75c87c23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 045/132] fix: set only the systematic's own parameters

---
 src/systematic/Renorm.cpp        | 17 ++++++++---------
 src/systematic/ScaleFunction.cpp | 17 ++++++++---------
 src/systematic/Shape.cpp         | 17 ++++++++---------
 3 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index b48d08e..7e94545 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -47,16 +47,15 @@ double Renorm::GetParameter(const std::string &name_) const
 
 void Renorm::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // Take only this systematic's own parameters, and either all of them or none
+    for (auto &&pair : fParamDict)
+    {
+        if (pd_.count(pair.first) == 0)
+            throw ParameterError("Renorm: set dictionary is missing " + pair.first);
+    }
+    for (auto &&pair : fParamDict)
     {
-        try
-        {
-            fParamDict[pair.first] = pair.second;
-        }
-        catch (const std::out_of_range &e_)
-        {
-            throw ParameterError("Renorm: cannot set parameter " + pair.first);
-        }
+        pair.second = pd_.at(pair.first);
     }
 }
 
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index 1d30cc5..49563ff 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -102,16 +102,15 @@ ScaleFunction::GetParameter(const std::string &name_) const
 
 void ScaleFunction::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // Take only this systematic's own parameters, and either all of them or none
+    for (auto &&pair : fParamDict)
     {
-        try
-        {
-            fParamDict[pair.first] = pair.second;
-        }
-        catch (const std::out_of_range &e_)
-        {
-            throw ParameterError("ScaleFunction: cannot set parameter " + pair.first);
-        }
+        if (pd_.count(pair.first) == 0)
+            throw ParameterError("ScaleFunction: set dictionary is missing " + pair.first);
+    }
+    for (auto &&pair : fParamDict)
+    {
+        pair.second = pd_.at(pair.first);
     }
 }
 
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index 8fac7da..e858a8b 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -84,16 +84,15 @@ double Shape::GetParameter(const std::string &name_) const
 
 void Shape::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // Take only this systematic's own parameters, and either all of them or none
+    for (auto &&pair : fParamDict)
     {
-        try
-        {
-            fParamDict[pair.first] = pair.second;
-        }
-        catch (const std::out_of_range &e_)
-        {
-            throw ParameterError("Shift: cannot set parameter " + pair.first);
-        }
+        if (pd_.count(pair.first) == 0)
+            throw ParameterError("Shape: set dictionary is missing " + pair.first);
+    }
+    for (auto &&pair : fParamDict)
+    {
+        pair.second = pd_.at(pair.first);
     }
 }
 
-- 
2.43.0


From 6aff52d113891583db34d54dc31defcbb242986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 046/132] fix: keep parameters renamed onto themselves or each
 other

---
 src/systematic/Renorm.cpp        | 4 ++++
 src/systematic/ScaleFunction.cpp | 4 ++++
 src/systematic/Shape.cpp         | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index 7e94545..19d01f2 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -73,6 +73,10 @@ void Renorm::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Renorm: can't rename " + old_);
+    if (old_ == new_)
+        return;
+    if (fParamDict.count(new_))
+        throw ParameterError("Renorm: can't rename " + old_ + ", there is already a parameter " + new_);
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index 49563ff..074f72d 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -129,6 +129,10 @@ void ScaleFunction::RenameParameter(const std::string &old_, const std::string &
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("ScaleFunction: can't rename " + old_);
+    if (old_ == new_)
+        return;
+    if (fParamDict.count(new_))
+        throw ParameterError("ScaleFunction: can't rename " + old_ + ", there is already a parameter " + new_);
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index e858a8b..1410038 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -110,6 +110,10 @@ void Shape::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Shift: can't rename " + old_);
+    if (old_ == new_)
+        return;
+    if (fParamDict.count(new_))
+        throw ParameterError("Shape: can't rename " + old_ + ", there is already a parameter " + new_);
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
-- 
2.43.0


From dde82a2a5b2d91460ba2e4844f599883505fe88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 047/132] fix: change no statistic of a sum when the set
 dictionary is incomplete

---
 src/teststat/StatisticSum.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/teststat/StatisticSum.cpp b/src/teststat/StatisticSum.cpp
index 74cd919..7b6bf62 100644
--- a/src/teststat/StatisticSum.cpp
+++ b/src/teststat/StatisticSum.cpp
@@ -1,5 +1,6 @@
 #include <StatisticSum.h>
 #include <ContainerTools.hpp>
+#include <Exceptions.h>
 
 StatisticSum::StatisticSum(TestStatistic &s1_, TestStatistic &s2_)
 {
@@ -19,6 +20,14 @@ StatisticSum::Evaluate()
 
 void StatisticSum::SetParameters(const ParameterDict &params_)
 {
+    // check that nothing is missing before any statistic changes
+    const std::set<std::string> names = GetParameterNames();
+    for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
+    {
+        if (!params_.count(*it))
+            throw ParameterError("StatisticSum: parameter " + *it + " is missing from the set dictionary");
+    }
+
     for (size_t i = 0; i < fStats.size(); i++)
         fStats.at(i)->SetParameters(params_);
 }
-- 
2.43.0


From 134394db10cb7e8dee9af7fd3d2d48b074032723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 048/132] fix: give copied CompositeEDs their own factors and
 name

---
 src/dist/CompositeED.cpp | 23 +++++++++++++++++++++--
 src/dist/CompositeED.h   |  2 ++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index f9bfb8d..d1c7e34 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -23,6 +23,26 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     }
     fName = name;
 }
+CompositeED::CompositeED(const CompositeED &other_) : fName(other_.fName)
+{
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+}
+
+CompositeED &
+CompositeED::operator=(const CompositeED &other_)
+{
+    if (this == &other_)
+        return *this;
+    for (size_t i = 0; i < fDistPtrs.size(); i++)
+        delete fDistPtrs[i];
+    fDistPtrs.clear();
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+    fName = other_.fName;
+    return *this;
+}
+
 CompositeED::~CompositeED()
 {
     for (size_t i = 0; i < fDistPtrs.size(); i++)
@@ -56,8 +76,7 @@ CompositeED::Integral() const
 EventDistribution *
 CompositeED::Clone() const
 {
-    EventDistribution *cp = new CompositeED(fDistPtrs);
-    return static_cast<EventDistribution *>(cp);
+    return static_cast<EventDistribution *>(new CompositeED(*this));
 }
 
 CompositeED
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index ce9da0e..51bf0dc 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -18,6 +18,8 @@ class CompositeED : public EventDistribution
 public:
    CompositeED(const EventDistribution *p1_, const EventDistribution *p2_);
    CompositeED(const std::vector<EventDistribution *> &pdfs_);
+   CompositeED(const CompositeED &other_);
+   CompositeED &operator=(const CompositeED &other_);
    virtual ~CompositeED();
 
    virtual double Probability(const Event &) const;
-- 
2.43.0


From 15564c3abacde27e2d653f30b8ab26043ad4a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 049/132] fix: give assigned AnalyticEDs their own function

---
 src/dist/AnalyticED.cpp | 13 +++++++++++++
 src/dist/AnalyticED.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/dist/AnalyticED.cpp b/src/dist/AnalyticED.cpp
index 7498c8e..4eb3de4 100644
--- a/src/dist/AnalyticED.cpp
+++ b/src/dist/AnalyticED.cpp
@@ -23,6 +23,19 @@ AnalyticED::AnalyticED(const AnalyticED &other_)
     fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
 }
 
+AnalyticED &
+AnalyticED::operator=(const AnalyticED &other_)
+{
+    if (this == &other_)
+        return *this;
+    delete fFunction;
+    fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
+    fName = other_.fName;
+    fNorm = other_.fNorm;
+    fObservables = other_.fObservables;
+    return *this;
+}
+
 EventDistribution *
 AnalyticED::Clone() const
 {
diff --git a/src/dist/AnalyticED.h b/src/dist/AnalyticED.h
index 5c64865..4e798d6 100644
--- a/src/dist/AnalyticED.h
+++ b/src/dist/AnalyticED.h
@@ -11,6 +11,7 @@ class AnalyticED : public EventDistribution, public FitComponent
 public:
    AnalyticED(const std::string &, PDF *); // make a copy
    AnalyticED(const AnalyticED &other_);   // deep copy
+   AnalyticED &operator=(const AnalyticED &other_);
    ~AnalyticED();                          // frees fFunction
    EventDistribution *Clone() const;
 
-- 
2.43.0


From 0d52e2c9c8ff03947e222869d7ae5c0b329fe521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 050/132] fix: free the function an assigned JumpPDF held

---
 src/function/JumpPDF.cpp | 5 ++++-
 src/function/JumpPDF.h   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 308d0f2..f64733d 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -33,9 +33,12 @@ JumpPDF::JumpPDF(const JumpPDF &other_)
   fName = other_.fName;
 }
 
-JumpPDF
+JumpPDF &
 JumpPDF::operator=(const JumpPDF &other_)
 {
+  if (this == &other_)
+    return *this;
+  delete fPDF;
   if (other_.fPDF)
     fPDF = static_cast<PDF *>(other_.fPDF->Clone());
   else
diff --git a/src/function/JumpPDF.h b/src/function/JumpPDF.h
index f62d966..bae9037 100644
--- a/src/function/JumpPDF.h
+++ b/src/function/JumpPDF.h
@@ -13,7 +13,7 @@ public:
   JumpPDF(const std::string &name_, PDF *);
   ~JumpPDF();
   JumpPDF(const JumpPDF &);
-  JumpPDF operator=(const JumpPDF &);
+  JumpPDF &operator=(const JumpPDF &);
   ConditionalPDF *Clone() const;
 
   // ConditDist Interface, just execute the function on x - x2
-- 
2.43.0


From f7a2888eff5f916bec59b5c52d0243e3cc253bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 051/132] fix: give copied VaryingCDFs their own functions and
 kernel

---
 src/function/VaryingCDF.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 8e3fa45..008154a 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -16,7 +16,7 @@ using ContainerTools::ToString;
 // Constructory Things //
 /////////////////////////
 
-VaryingCDF::VaryingCDF(const std::string &name_ = "")
+VaryingCDF::VaryingCDF(const std::string &name_ = "") : fCdf(NULL)
 {
     if (name_ == "")
         fName = std::string("VaryingCDF");
@@ -32,18 +32,27 @@ VaryingCDF::~VaryingCDF()
     }
 }
 
-VaryingCDF::VaryingCDF(const VaryingCDF &copy_)
+VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : fCdf(NULL)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
+    for (std::map<std::string, Function *>::const_iterator it = copy_.fFunctions.begin(); it != copy_.fFunctions.end(); ++it)
+        fFunctions[it->first] = it->second->Clone();
+    if (copy_.fCdf)
+        fCdf = copy_.fCdf->Clone();
     fName = copy_.fName;
 }
 
 VaryingCDF &
 VaryingCDF::operator=(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
+    if (this == &copy_)
+        return *this;
+    for (std::map<std::string, Function *>::iterator it = fFunctions.begin(); it != fFunctions.end(); ++it)
+        delete it->second;
+    fFunctions.clear();
+    for (std::map<std::string, Function *>::const_iterator it = copy_.fFunctions.begin(); it != copy_.fFunctions.end(); ++it)
+        fFunctions[it->first] = it->second->Clone();
+    delete fCdf;
+    fCdf = copy_.fCdf ? copy_.fCdf->Clone() : NULL;
     fName = copy_.fName;
     return *this;
 }
-- 
2.43.0


From eb439d5876565329b9d2ea023f71a1a23e7c0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 052/132] fix: free the replaced kernels and functions of a
 VaryingCDF

---
 src/function/VaryingCDF.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 008154a..d82d83e 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -86,7 +86,9 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
-    fFunctions[paraName_] = func_->Clone();
+    Function *func = func_->Clone();
+    delete fFunctions[paraName_];
+    fFunctions[paraName_] = func;
 }
 
 double
@@ -102,7 +104,9 @@ VaryingCDF::Integral(const std::vector<double> &mins_,
 
 void VaryingCDF::SetKernel(ConditionalPDF *PDF_)
 {
-    fCdf = PDF_->Clone();
+    ConditionalPDF *cdf = PDF_->Clone();
+    delete fCdf;
+    fCdf = cdf;
 }
 
 void VaryingCDF::SetKernel(PDF *PDF_)
@@ -110,6 +114,7 @@ void VaryingCDF::SetKernel(PDF *PDF_)
     // BL : If we are passed a PDF we transform to a JumpPDF in order to preserve
     // the structure of shifting a function to a bin center and integrating over
     // over bins relative to that shift.
+    delete fCdf;
     fCdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
 }
 
-- 
2.43.0


From d1b8f8c83e19f20dad7cc62b04789b8f524ec22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 053/132] fix: give copied Convolutions their own kernel

---
 src/systematic/Convolution.cpp | 20 ++++++++++++++++++++
 src/systematic/Convolution.h   |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index 40bf520..17ddf9b 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -18,6 +18,26 @@ void Convolution::SetConditionalPDF(ConditionalPDF *c_)
     fDist = c_->Clone();
 }
 
+Convolution::Convolution(const Convolution &other_) : Systematic(other_), fDist(NULL)
+{
+    *this = other_;
+}
+
+Convolution &Convolution::operator=(const Convolution &other_)
+{
+    if (this == &other_)
+        return *this;
+    Systematic::operator=(other_);
+    delete fDist;
+    fDist = other_.fDist ? other_.fDist->Clone() : NULL;
+    fName = other_.fName;
+    fCachedIndexPermutations = other_.fCachedIndexPermutations;
+    fSubMapAxes = other_.fSubMapAxes;
+    fNotSubMapAxes = other_.fNotSubMapAxes;
+    fColumnPerms = other_.fColumnPerms;
+    return *this;
+}
+
 Convolution::~Convolution()
 {
     delete fDist;
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index beafb71..f7b1737 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -18,6 +18,8 @@ class Convolution : public Systematic
 public:
    // Constructor/Destructor
    Convolution(const std::string &name_) : fDist(NULL), fName(name_), fCachedIndexPermutations(false) {}
+   Convolution(const Convolution &other_);
+   Convolution &operator=(const Convolution &other_);
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
-- 
2.43.0


From a313ef6c013b832e8f50de36c1cdbbe5143e700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 054/132] fix: copy the name of EventConvolutions and free the
 assigned one's kernel

---
 src/eventSystematic/EventConvolution.cpp | 7 ++++++-
 src/eventSystematic/EventConvolution.h   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index c2d7aa1..07aed07 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -23,11 +23,15 @@ EventConvolution::EventConvolution(const EventConvolution &other_)
     fDist = NULL;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
 }
 
-EventConvolution
+EventConvolution &
 EventConvolution::operator=(const EventConvolution &other_)
 {
+  if (this == &other_)
+    return *this;
+  delete fDist;
   if (other_.fDist)
     fDist = other_.fDist->Clone();
   else
@@ -35,6 +39,7 @@ EventConvolution::operator=(const EventConvolution &other_)
 
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
   return *this;
 }
 
diff --git a/src/eventSystematic/EventConvolution.h b/src/eventSystematic/EventConvolution.h
index 5e601b1..3a418aa 100644
--- a/src/eventSystematic/EventConvolution.h
+++ b/src/eventSystematic/EventConvolution.h
@@ -15,7 +15,7 @@ public:
   EventConvolution(const std::string &name_) : fDist(NULL), fName(name_) {}
   ~EventConvolution();
   EventConvolution(const EventConvolution &);
-  EventConvolution operator=(const EventConvolution &);
+  EventConvolution &operator=(const EventConvolution &);
 
   // Get/Set
   void SetPDF(PDF *f);
-- 
2.43.0


From 5d5178e52c4436792393998effb2f52bf97a4936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 055/132] fix: free the replaced kernel of an EventConvolution

---
 src/eventSystematic/EventConvolution.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index 07aed07..d2de01f 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -50,23 +50,25 @@ EventConvolution::operator=(const EventConvolution &other_)
 void EventConvolution::SetPDF(PDF *f_)
 {
   if (!f_)
+  {
+    delete fDist;
     fDist = NULL;
-
+  }
   else
   {
     if (f_->GetNDims() != 1)
       throw DimensionError("EventConvolution::SetFunction", 1,
                            f_->GetNDims(), "Only implemented for 1D functions");
+    delete fDist;
     fDist = static_cast<ConditionalPDF *>(new JumpPDF("kernel", f_));
   }
 }
 
 void EventConvolution::SetConditionalPDF(ConditionalPDF *c_)
 {
-  if (!c_)
-    fDist = NULL;
-  else
-    fDist = c_->Clone();
+  ConditionalPDF *dist = c_ ? c_->Clone() : NULL;
+  delete fDist;
+  fDist = dist;
 }
 
 /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3201b0cbc629c7bb344bcf23db0ef9f705042308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 056/132] fix: copy the statistics space and precision of
 FitResults

---
 src/optimise/FitResult.cpp | 9 +++++++--
 src/optimise/FitResult.h   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index c89f4e1..8052b3c 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -35,10 +35,13 @@ FitResult::GetStatSpace() const
     return *fStatSpace;
 }
 
-FitResult
+FitResult &
 FitResult::operator=(const FitResult &other_)
 {
-    if (!fStatSpace)
+    if (this == &other_)
+        return *this;
+    delete fStatSpace;
+    if (!other_.fStatSpace)
         fStatSpace = NULL;
     else
         fStatSpace = new Histogram(*other_.fStatSpace);
@@ -49,6 +52,7 @@ FitResult::operator=(const FitResult &other_)
     f1DProjections = other_.f1DProjections;
     f2DProjections = other_.f2DProjections;
     fCovarianceMatrix = other_.fCovarianceMatrix;
+    printPrecision = other_.printPrecision;
     return *this;
 }
 
@@ -66,6 +70,7 @@ FitResult::FitResult(const FitResult &other_)
     f1DProjections = other_.f1DProjections;
     f2DProjections = other_.f2DProjections;
     fCovarianceMatrix = other_.fCovarianceMatrix;
+    printPrecision = other_.printPrecision;
 }
 
 const std::vector<std::vector<double>> &
diff --git a/src/optimise/FitResult.h b/src/optimise/FitResult.h
index 94a54fd..8cc11aa 100644
--- a/src/optimise/FitResult.h
+++ b/src/optimise/FitResult.h
@@ -18,7 +18,7 @@ class FitResult
 public:
    FitResult() : fStatSpace(NULL), fExtremeVal(0), printPrecision(5), fIsValid(true) {}
    FitResult(const FitResult &);           // deep copy
-   FitResult operator=(const FitResult &); // deep copy
+   FitResult &operator=(const FitResult &); // deep copy
    ~FitResult();                           // frees stat space
 
    const ParameterDict &GetBestFit() const;
-- 
2.43.0


From e63dd86541990bb98d6026288b13f65705186294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 057/132] fix: refuse a statistics space that was not set

---
 src/optimise/FitResult.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 8052b3c..3952c69 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,12 +26,16 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
-    fStatSpace = new Histogram(statSpace_);
+    Histogram *statSpace = new Histogram(statSpace_);
+    delete fStatSpace;
+    fStatSpace = statSpace;
 }
 
 const Histogram &
 FitResult::GetStatSpace() const
 {
+    if (!fStatSpace)
+        throw NULLPointerAccessError("FitResult::GetStatSpace", "Has it been set?");
     return *fStatSpace;
 }
 
-- 
2.43.0


From e507036f2d21a841ffe04643b72207563ee58751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 058/132] fix: register copied LazyOXSXDataSets and close
 assigned ones

---
 src/data/LazyOXSXDataSet.cpp | 6 +++++-
 src/data/LazyOXSXDataSet.h   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 7e976fb..d043602 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -12,11 +12,15 @@ LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_)
 {
   fFileName = other_.fFileName;
   fDataSet = NULL;
+  Register();
 }
 
-LazyOXSXDataSet
+LazyOXSXDataSet &
 LazyOXSXDataSet::operator=(const LazyOXSXDataSet &other_)
 {
+  if (this == &other_)
+    return *this;
+  Close();
   fFileName = other_.fFileName;
   fDataSet = NULL;
   return *this;
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 7918928..1aa54b3 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -16,7 +16,7 @@ public:
     LazyOXSXDataSet(const std::string &filename_) : fFileName(filename_), fDataSet(NULL) { Register(); }
     ~LazyOXSXDataSet(); // frees fData
     LazyOXSXDataSet(const LazyOXSXDataSet &);
-    LazyOXSXDataSet operator=(const LazyOXSXDataSet &);
+    LazyOXSXDataSet &operator=(const LazyOXSXDataSet &);
 
     // Memory management
     void Load() const;
-- 
2.43.0


From b2811fd132a46cb7e84f69c6224d3ea7462abb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 059/132] fix: read the parameters of every dimension of a
 Gaussian

---
 src/function/GaussianFitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 2b96f13..250ea35 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -101,9 +101,9 @@ GaussianFitter::GetParameter(const std::string &name_) const
         it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
         if (it == fStdDevsNames.end())
             throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
-        return fOrignalFunc->GetStDev(std::distance(it, fStdDevsNames.begin()));
+        return fOrignalFunc->GetStDev(std::distance(fStdDevsNames.begin(), it));
     }
-    return fOrignalFunc->GetMean(std::distance(it, fMeansNames.begin()));
+    return fOrignalFunc->GetMean(std::distance(fMeansNames.begin(), it));
 }
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
-- 
2.43.0


From 67f8382ba30327419aa1932b5137fb96e6a70e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 060/132] fix: end the renaming of a Gaussian's parameter to
 itself

---
 src/function/GaussianFitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 250ea35..f81f3ba 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -47,14 +47,14 @@ void GaussianFitter::RenameParameter(const std::string &old_, const std::string
     while (it != fMeansNames.end())
     {
         *it = new_;
-        it = find(it++, fMeansNames.end(), old_);
+        it = find(++it, fMeansNames.end(), old_);
     }
 
     it = find(fStdDevsNames.begin(), fStdDevsNames.end(), old_);
     while (it != fStdDevsNames.end())
     {
         *it = new_;
-        it = find(it++, fStdDevsNames.end(), old_);
+        it = find(++it, fStdDevsNames.end(), old_);
     }
 }
 
-- 
2.43.0


From ae3a1815c26806df2832b785673ef1f9cfe6adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 061/132] fix: route the parameters of Gaussians and
 VaryingCDFs by name

---
 src/function/GaussianFitter.cpp |  8 +++++++-
 src/function/VaryingCDF.cpp     | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index f81f3ba..dd90b2f 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -73,6 +73,9 @@ GaussianFitter::GetStdDevNames() const
 void GaussianFitter::SetParameter(const std::string &name_, double value_)
 {
     std::vector<std::string>::iterator it;
+    if (find(fMeansNames.begin(), fMeansNames.end(), name_) == fMeansNames.end() && find(fStdDevsNames.begin(), fStdDevsNames.end(), name_) == fStdDevsNames.end())
+        throw NotFoundError(Formatter() << "GaussianFitter:: When attempting to set the parameter " << name_ << ", it wasn't found. Available names: " << ToString(GetParameterNames()));
+
     it = find(fMeansNames.begin(), fMeansNames.end(), name_);
     while (it != fMeansNames.end())
     {
@@ -108,9 +111,12 @@ GaussianFitter::GetParameter(const std::string &name_) const
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
 {
+    // take the ones that are known here
+    const std::set<std::string> names = GetParameterNames();
     for (ParameterDict::const_iterator i = ps_.begin(); i != ps_.end(); ++i)
     {
-        SetParameter(i->first, i->second);
+        if (names.count(i->first))
+            SetParameter(i->first, i->second);
     }
 }
 
diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index d82d83e..a67adca 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -129,10 +129,16 @@ VaryingCDF::Sample(const std::vector<double> &x2_) const
 
 void VaryingCDF::SetParameter(const std::string &name_, double value_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(name_))
+            continue;
         function->second->SetParameter(name_, value_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Can't set parameter : " << name_ << ". Parameters available : " << ToString(GetParameterNames()));
 }
 
 double
@@ -141,13 +147,8 @@ VaryingCDF::GetParameter(const std::string &name_) const
     // This returns parameters of the parameter functions that have been defined.
     for (const auto &function : fFunctions)
     {
-        try
-        {
+        if (function.second->GetParameterNames().count(name_))
             return function.second->GetParameter(name_);
-        }
-        catch (const NotFoundError &e_)
-        {
-        }
     }
     // Parameter couldn't be found, so throw exception.
     std::vector<std::string> functionNames;
@@ -204,10 +205,16 @@ VaryingCDF::GetParameterNames() const
 
 void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(old_))
+            continue;
         function->second->RenameParameter(old_, new_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Can't rename parameter : " << old_ << ". Parameters available : " << ToString(GetParameterNames()));
 }
 
 std::string
-- 
2.43.0


From 6318cc7d0cce63de11df4930414661846f8d219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 062/132] fix: count shared parameters of Gaussians and
 VaryingCDFs once

---
 src/function/GaussianFitter.cpp | 3 ++-
 src/function/VaryingCDF.cpp     | 8 ++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index dd90b2f..77fd192 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -142,7 +142,8 @@ GaussianFitter::GetParameters() const
 size_t
 GaussianFitter::GetParameterCount() const
 {
-    return fMeansNames.size() + fStdDevsNames.size();
+    // means and widths can share parameters, so this isn't a simple sum
+    return GetParameterNames().size();
 }
 
 std::set<std::string>
diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index a67adca..982171f 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -183,12 +183,8 @@ VaryingCDF::GetParameters() const
 size_t
 VaryingCDF::GetParameterCount() const
 {
-    size_t number = 0;
-    for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
-    {
-        number += function->second->GetParameterCount();
-    }
-    return number;
+    // functions can share parameters, so this isn't a simple sum
+    return GetParameterNames().size();
 }
 
 std::set<std::string>
-- 
2.43.0


From 6ef1d2dc13e961241d87eb769ebdb2f2bc4f473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 063/132] fix: change no function of a VaryingCDF when the set
 dictionary is incomplete

---
 src/function/VaryingCDF.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 982171f..0b711ee 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -162,9 +162,22 @@ VaryingCDF::GetParameter(const std::string &name_) const
 
 void VaryingCDF::SetParameters(const ParameterDict &paraDict_)
 {
-    for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
+    const ParameterDict old = GetParameters();
+    try
+    {
+        for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
+        {
+            function->second->SetParameters(paraDict_);
+        }
+    }
+    catch (const OXSXException &)
     {
-        function->second->SetParameters(paraDict_);
+        // set all of them or none
+        for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
+        {
+            function->second->SetParameters(old);
+        }
+        throw;
     }
 }
 
-- 
2.43.0


From 45b9f7b0f61a2e4fc2677106af8d4c73afe65bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 064/132] fix: set the bin content in
 SpectralFitDist::SetParameter

---
 src/dist/SpectralFitDist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 91c5454..eb4c9dc 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -28,7 +28,7 @@ void SpectralFitDist::SetParameter(const std::string &name_, double value)
     if (it == fBinNames.end())
         throw ParameterError("Can't set " + name_ + ", parameters are called " + ToString(fBinNames));
 
-    *it = value;
+    fHistogram.SetBinContent(it - fBinNames.begin(), value);
 }
 
 double
-- 
2.43.0


From 6dae3804180982f62425702b1d88dc6666bb0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 065/132] fix: change no bin when the set dictionary is
 incomplete

---
 src/dist/SpectralFitDist.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index eb4c9dc..cc56165 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -42,15 +42,12 @@ SpectralFitDist::GetParameter(const std::string &name_) const
 
 void SpectralFitDist::SetParameters(const ParameterDict &pd_)
 {
+    // check they are all there before any is changed
     for (size_t i = 0; i < fBinNames.size(); i++)
-        try
-        {
-            fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));
-        }
-        catch (const std::out_of_range &e_)
-        {
+        if (!pd_.count(fBinNames.at(i)))
             throw ParameterError("Set Parameters: Couldn't set bin content " + fBinNames.at(i));
-        }
+    for (size_t i = 0; i < fBinNames.size(); i++)
+        fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));
 }
 
 ParameterDict
-- 
2.43.0


From 36e6511fc16c0a793f0f9b7d1bac82df80b2f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 066/132] fix: refuse to rename a bin onto another

---
 src/dist/SpectralFitDist.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index cc56165..39b4415 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -73,6 +73,8 @@ void SpectralFitDist::RenameParameter(const std::string &old_, const std::string
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), old_);
     if (it == fBinNames.end())
         throw ParameterError("Can't rename " + old_ + " it doesn't exist, parameters are called: \n " + ToString(fBinNames));
+    if (old_ != new_ && std::find(fBinNames.begin(), fBinNames.end(), new_) != fBinNames.end())
+        throw ParameterError("Can't rename " + old_ + " to " + new_ + ", there is already a parameter called that");
     *it = new_;
 }
 
-- 
2.43.0


From 46d9e8c4b67810c9d16795efe68a66cd0d50e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 067/132] fix: refuse means and widths outside a Gaussian's
 dimensions

---
 src/function/Gaussian.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 907e3d1..3add493 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -109,21 +109,29 @@ Gaussian::GetStDev(size_t dimension_) const
 
 void Gaussian::SetMean(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fMeans.size())
+        throw NotFoundError("Gaussian::Tried to set mean beyond function dimensionality!");
     fMeans[dim_] = value_;
 }
 
 void Gaussian::SetStDev(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fStdDevs.size())
+        throw NotFoundError("Gaussian::Tried to set stdDev beyond function dimensionality!");
     fStdDevs[dim_] = value_;
 }
 
 void Gaussian::SetMeans(const std::vector<double> &means_)
 {
+    if (means_.size() != GetNDims())
+        throw DimensionError("Gaussian::Tried to set #means != function dimensionality!");
     fMeans = means_;
 }
 
 void Gaussian::SetStDevs(const std::vector<double> &stddevs_)
 {
+    if (stddevs_.size() != GetNDims())
+        throw DimensionError("Gaussian::Tried to set #stdDevs != function dimensionality!");
     fStdDevs = stddevs_;
 }
 
-- 
2.43.0


From 7612d6f7e633b5d36886a4a27dd7e02f3b9e49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 068/132] fix: clone a SpectralFitDist as what it is

---
 src/dist/SpectralFitDist.cpp | 6 ++++++
 src/dist/SpectralFitDist.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 39b4415..7d8dc11 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -22,6 +22,12 @@ SpectralFitDist::SpectralFitDist(const std::string &name_,
     fName = name_;
 }
 
+EventDistribution *
+SpectralFitDist::Clone() const
+{
+    return static_cast<EventDistribution *>(new SpectralFitDist(*this));
+}
+
 void SpectralFitDist::SetParameter(const std::string &name_, double value)
 {
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), name_);
diff --git a/src/dist/SpectralFitDist.h b/src/dist/SpectralFitDist.h
index f141ac7..da7f661 100644
--- a/src/dist/SpectralFitDist.h
+++ b/src/dist/SpectralFitDist.h
@@ -8,6 +8,7 @@ class SpectralFitDist : public BinnedED, public FitComponent
 public:
    SpectralFitDist(const std::string &name_,
                    const AxisCollection &axes_);
+   EventDistribution *Clone() const;
 
    // Make this fittable with each bin content adjustable
    void SetParameter(const std::string &name_, double value);
-- 
2.43.0


From 2a1386720a8b40b97472418aa219f33acfff05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 069/132] fix: stop the grid search after its last parameter
 wraps around

---
 src/optimise/GridSearch.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index fe95327..82c0f2e 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -130,10 +130,11 @@ GridSearch::Optimise(TestStatistic *testStat_)
 bool GridSearch::Increment(ParameterDict::iterator it_,
                            ParameterDict::iterator end_)
 {
-    const std::string paramToChange = it_->first;
-    // nothing doing
-    if (fMinima == fMaxima)
+    // every index has wrapped around: that was the last grid point
+    if (it_ == end_)
         return false;
+
+    const std::string paramToChange = it_->first;
     fParamVals[paramToChange] += fStepSizes.at(paramToChange);
 
     // wrap around past the maximum
@@ -141,10 +142,6 @@ bool GridSearch::Increment(ParameterDict::iterator it_,
     {
         fParamVals[paramToChange] = fMinima.at(paramToChange);
 
-        // if its the last index no rippling to do
-        if (it_ == end_--)
-            return false;
-
         // ripple up to next index
         if (Increment(++it_, end_)) // propagate the false down
             return true;
-- 
2.43.0


From df0227d2d4c5d1a3f590e4b59b95b15998813aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 070/132] fix: evaluate the first point of the grid

---
 src/optimise/GridSearch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index 82c0f2e..94d4a47 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -97,7 +97,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     if (oneTenth < 10)
         oneTenth = 1;
 
-    while (Increment(fStepSizes.begin(), fStepSizes.end()))
+    do
     {
         // calculate the new value
         // if bigger, grab this as new best fit
@@ -121,7 +121,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
             fMinVal = currentVal;
             bestFit = fParamVals;
         }
-    }
+    } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
     fFitResult.SetExtremeVal(fMinVal);
     return fFitResult;
-- 
2.43.0


From 7dded302455c41392fcd2fe1598b947a7f92d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 071/132] fix: keep a best grid point with the value zero

---
 src/optimise/GridSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index 94d4a47..f374ded 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -116,7 +116,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
         if (fMaximising)
             currentVal *= -1;
 
-        if (currentVal < fMinVal || !fMinVal)
+        if (currentVal < fMinVal || bestFit.empty())
         {
             fMinVal = currentVal;
             bestFit = fParamVals;
-- 
2.43.0


From b814e5a0dc9e7b598abe8ddca523129818a32478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 072/132] fix: report the maximum of a maximising grid search
 with its own sign

---
 src/optimise/GridSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index f374ded..a71e0d1 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -123,7 +123,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
         }
     } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
-    fFitResult.SetExtremeVal(fMinVal);
+    fFitResult.SetExtremeVal(fMaximising ? -fMinVal : fMinVal);
     return fFitResult;
 }
 
-- 
2.43.0


From f158d0ca12f4eea932ae2dbcbf78dd06ae6e9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 073/132] fix: refuse grids with inverted ranges or steps that
 are not positive

---
 src/optimise/GridSearch.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index a71e0d1..3c9b4f6 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -66,6 +66,16 @@ GridSearch::Optimise(TestStatistic *testStat_)
                          << "StepSizes for :\n"
                          << ToString(GetKeys(fStepSizes)) << "\n");
 
+    for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end(); ++it)
+    {
+        if (!(it->second <= fMaxima[it->first] && fStepSizes[it->first] > 0))
+            throw LogicError(Formatter()
+                             << "Grid Search initialisation error "
+                             << "Invalid grid for " << it->first
+                             << " : " << it->second << " - " << fMaxima[it->first]
+                             << " in steps of " << fStepSizes[it->first] << "\n");
+    }
+
     // Prepare best fit
     ParameterDict bestFit;
     fMinVal = 0;
-- 
2.43.0


From 62b34111aef0533aaf23ec230aa46ad8caf9b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 074/132] fix: keep the soft boundary linear far outside

---
 src/optimise/SigmoidBoundary.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/optimise/SigmoidBoundary.hpp b/src/optimise/SigmoidBoundary.hpp
index c36146b..740864e 100644
--- a/src/optimise/SigmoidBoundary.hpp
+++ b/src/optimise/SigmoidBoundary.hpp
@@ -13,17 +13,19 @@ SigmoidBoundary<Energy>::Evaluate()
 {
     // the target
     double correctedEnergy = fStat.Evaluate();
-    // the soft boundaries
+    // the soft boundaries: log(1 + exp(x)), without overflow for large x
     for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end();
          ++it)
     {
-        correctedEnergy += log(1 + exp(-fMu * (fParams[it->first] - it->second)));
+        double x = -fMu * (fParams[it->first] - it->second);
+        correctedEnergy += fmax(x, 0) + log1p(exp(-fabs(x)));
     }
 
     for (ParameterDict::iterator it = fMaxima.begin(); it != fMaxima.end();
          ++it)
     {
-        correctedEnergy += log(1 + exp(+fMu * (fParams[it->first] - it->second)));
+        double x = +fMu * (fParams[it->first] - it->second);
+        correctedEnergy += fmax(x, 0) + log1p(exp(-fabs(x)));
     }
     return correctedEnergy;
 }
-- 
2.43.0


From 9eea906a0cae5bcf2a3c13b5b7213a438bdcd3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 075/132] fix: reflect positions that are exactly on a wall

---
 src/optimise/LeapFrog.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/optimise/LeapFrog.cpp b/src/optimise/LeapFrog.cpp
index 6b06b19..b4ecb74 100644
--- a/src/optimise/LeapFrog.cpp
+++ b/src/optimise/LeapFrog.cpp
@@ -17,22 +17,20 @@ void LeapFrog::FirstIntersectionTime(const ParameterDict &initPos_,
     for (ParameterDict::const_iterator it = initPos_.begin(); it != initPos_.end(); ++it)
     {
         double vel = momenta_.at(it->first) / masses_.at(it->first);
-        double mintime = IntersectionTime(minima_.at(it->first), initPos_.at(it->first), vel);
-        double maxtime = IntersectionTime(maxima_.at(it->first), initPos_.at(it->first), vel);
+        double min = minima_.at(it->first);
+        double max = maxima_.at(it->first);
 
         // only pick up crosses in the right direction
-        // the other way shouldn't happen, but round off error can make it so
-        bool mincrossed = (mintime > 0 && mintime < epsilon_ && (it->second > minima_.at(it->first)));
-        bool maxcrossed = (maxtime > 0 && maxtime < epsilon_ && (it->second < maxima_.at(it->first)));
-
-        if (!mincrossed && !maxcrossed)
+        if (!(min < max) || !(vel < 0 || vel > 0))
             continue;
 
-        double time;
-        if (mincrossed)
-            time = mintime;
-        else if (maxcrossed)
-            time = maxtime;
+        // already at the wall (or just past it, by round off error): cross it now
+        double time = IntersectionTime(vel < 0 ? min : max, initPos_.at(it->first), vel);
+        if (time < 0)
+            time = 0;
+
+        if (!(time < epsilon_))
+            continue;
 
         if (crossTime_ == -1 || time < crossTime_)
         {
-- 
2.43.0


From d874e7bd9f955fea003896d3ef54e9b2896d0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 076/132] fix: consider the last accepted step for the best fit

---
 src/optimise/MCMC.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 1552b09..750ab95 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -227,12 +227,6 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         proposedVal = -proposedVal;
     }
 
-    if (fCurrentVal > fMaxVal)
-    {
-        fMaxVal = fCurrentVal;
-        fBestFit = fCurrentStep;
-    }
-
     long double acceptanceParam = 0;
     if (fTestStatLogged)
         acceptanceParam = exp(proposedVal - fCurrentVal + fSampler.CorrectAccParam());
@@ -251,5 +245,11 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         fCurrentStep = proposedStep_;
     }
 
+    if (fCurrentVal > fMaxVal)
+    {
+        fMaxVal = fCurrentVal;
+        fBestFit = fCurrentStep;
+    }
+
     return accept;
 }
-- 
2.43.0


From 36fd84025f732084594cd3f36a6a35e4a7f306ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 077/132] fix: leave out exactly the burn-in steps

---
 src/optimise/MCMCSamples.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 424b907..8607d73 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -134,7 +134,7 @@ void MCMCSamples::Fill(const ParameterDict &params_, double val_, bool accepted_
         InitialiseHistograms();
 
     // a. Save the point in question if you are past burn-in phase and according to thinning
-    if (fTotalSteps > fBurnIn && !(fTotalSteps % fThinFactor))
+    if (fTotalSteps >= fBurnIn && !(fTotalSteps % fThinFactor))
     {
         //            fSample.push_back(currentStep);
         if (fSaveFullHistogram)
-- 
2.43.0


From c6a8b719ad8087abed5e46cbf89164f29ae64487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 078/132] fix: give the chain's parameter buffer its size

---
 src/optimise/MCMCSamples.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 8607d73..58a4aed 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -110,7 +110,7 @@ void MCMCSamples::InitialiseHistograms()
         fChain->Branch("Step", &fStepNumber, "Step/I");
         fChain->Branch("StepTime", &fStepTime, "StepTime/D");
 
-        parvals.reserve(paramNames.size());
+        parvals.resize(paramNames.size());
         for (std::set<std::string>::iterator it = paramNames.begin();
              it != paramNames.end(); ++it)
         {
-- 
2.43.0


From e30309d2559452320c46364ab552ee5e0c2ab25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 079/132] fix: initialise the chain of MCMC

---
 src/optimise/MCMC.h        | 3 ++-
 src/optimise/MCMCSamples.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MCMC.h b/src/optimise/MCMC.h
index 66139c9..6b0c2b7 100644
--- a/src/optimise/MCMC.h
+++ b/src/optimise/MCMC.h
@@ -17,7 +17,8 @@ public:
                          fCurrentVal(0.),
                          fSamples(this),
                          pTestStatistic(NULL),
-                         fSampler(s_)
+                         fSampler(s_),
+                         fSaveChain(false)
    {
    }
 
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index eab5a53..df9d5f6 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -14,6 +14,7 @@ public:
    MCMCSamples(MCMC *p_) : fSaveFullHistogram(false), fAcceptedSteps(0), fTotalSteps(0),
                            fBurnIn(1000), fThinFactor(1), fInitialised(false), fMCMC(p_),
                            fAutoCorrelator(1000),
+                           fChain(NULL),
                            fSaveChain(false)
    {
    }
-- 
2.43.0


From cfce974ec85a3114bbdc7426f6791e332d477219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 080/132] fix: define MCMC::GetRejectionRate

---
 src/optimise/MCMC.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 750ab95..c8cd249 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -58,6 +58,12 @@ MCMC::GetSamples() const
     return fSamples;
 }
 
+double
+MCMC::GetRejectionRate() const
+{
+    return fSamples.GetRejectionRate();
+}
+
 ParameterDict
 MCMC::GetMinima() const
 {
-- 
2.43.0


From 60bbc7b5fd8b87cf24d9b9c51065682a7830dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 081/132] fix: refuse MCMC ranges and trials under other names
 than the parameters'

---
 src/optimise/MCMC.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index c8cd249..bbf1a62 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -147,7 +147,9 @@ MCMC::Optimise(TestStatistic *testStat_)
 
     // Check initialisation
     size_t nParams = testStat_->GetParameterCount();
-    if ((fInitialTrial.size() != nParams && fInitialTrial.size()) || fMaxima.size() != nParams || fMinima.size() != nParams)
+    const std::set<std::string> names = testStat_->GetParameterNames();
+    if ((fInitialTrial.size() && ContainerTools::GetKeys(fInitialTrial) != names) ||
+        ContainerTools::GetKeys(fMaxima) != names || ContainerTools::GetKeys(fMinima) != names)
         throw LogicError(Formatter()
                          << "MCMC initialisation error - Got "
                          << fMinima.size() << " Minima, "
-- 
2.43.0


From 21136fe097cf42c4b21dcad21507c7e6fe16b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 082/132] fix: refuse thin factors below one

---
 src/optimise/MCMCSamples.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 58a4aed..fb39c65 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -3,6 +3,8 @@
 #include <HistTools.h>
 #include <MCMC.h>
 #include <ContainerTools.hpp>
+#include <Exceptions.h>
+#include <Formatter.hpp>
 
 void MCMCSamples::SetSaveFullHistogram(bool b_)
 {
@@ -213,6 +215,8 @@ int MCMCSamples::GetThinFactor() const
 
 void MCMCSamples::SetThinFactor(int tf_)
 {
+    if (tf_ < 1)
+        throw ValueError(Formatter() << "MCMCSamples::Thin factor must be at least 1, not " << tf_);
     fThinFactor = tf_;
 }
 
-- 
2.43.0


From ce429a07d95893068e815c0354c6bbed3743723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 083/132] fix: start each MCMC run with empty samples

---
 src/optimise/MCMC.cpp        | 4 ++++
 src/optimise/MCMCSamples.cpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index bbf1a62..c541e86 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -145,6 +145,10 @@ MCMC::Optimise(TestStatistic *testStat_)
     pTestStatistic = testStat_;
     fNDims = fMinima.size();
 
+    // forget any previous run
+    fSamples.Clear();
+    fCurrentStep.clear();
+
     // Check initialisation
     size_t nParams = testStat_->GetParameterCount();
     const std::set<std::string> names = testStat_->GetParameterNames();
diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index fb39c65..031cdfd 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -228,7 +228,8 @@ void MCMCSamples::Clear()
     f1DProjections.clear();
     f2DProjections.clear();
     fInitialised = false;
-    fHist.Empty();
+    fHist = Histogram();
+    fChain = NULL;
     fAutoCorrelator.Clear();
 }
 
-- 
2.43.0


From 46c9c20d1271efdcd84f1c42dd8b81dd47b551f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 084/132] fix: compute the variance of the window

---
 src/optimise/AutoCorrelationCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/AutoCorrelationCalc.cpp b/src/optimise/AutoCorrelationCalc.cpp
index 68be4f1..5a55601 100644
--- a/src/optimise/AutoCorrelationCalc.cpp
+++ b/src/optimise/AutoCorrelationCalc.cpp
@@ -44,8 +44,8 @@ double
 AutoCorrelationCalc::Var() const
 {
     double mean = Mean();
-    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0);
-    return sumSq - mean * mean;
+    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0.0);
+    return sumSq / fValues.size() - mean * mean;
 }
 
 void AutoCorrelationCalc::Clear()
-- 
2.43.0


From c38c5b6ac6f529a98d1595f78813bf74b299abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 085/132] fix: FitResult::SaveAs reports a file it could not
 write

---
 src/optimise/FitResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 3952c69..5aa5415 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -109,6 +109,8 @@ void FitResult::SaveAs(const std::string &fileName_) const
     fs.open(fileName_.c_str());
     fs << AsString();
     fs.close();
+    if (!fs)
+        throw IOError("FitResult::SaveAs Failed to write " + fileName_);
 }
 
 std::string
-- 
2.43.0


From d8ff0b7651ecf04ac809598ca936d8337c9af3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 086/132] fix: ConfigLoader keeps its configuration when a new
 one doesn't parse

---
 src/config/ConfigLoader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index bf956f8..eed1ff1 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -20,8 +20,9 @@ void ConfigLoader::Open(const std::string &fileName_)
     {
         throw IOError("Can't find config file " + fileName_);
     }
+    INI::Parser *parser = new INI::Parser(ss);
     delete fParser;
-    fParser = new INI::Parser(ss);
+    fParser = parser;
 }
 
 void ConfigLoader::Close()
-- 
2.43.0


From 457738d23f85db50908b84166dcade1a96207ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 087/132] fix: ConfigLoader::Load refuses when no file is open

---
 src/config/ConfigLoader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index eed1ff1..9e6abab 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -42,6 +42,8 @@ ConfigLoader::ListSections()
 
 void ConfigLoader::CheckExists(const std::string &section_, const std::string &field_)
 {
+    if (!fParser)
+        throw NULLPointerAccessError("ConfigLoader::Load", "Has a config file been opened?");
 
     if (fParser->top().sections.find(section_) == fParser->top().sections.end())
         throw ConfigSectionMissing("Can't find section " + section_);
-- 
2.43.0


From 386c4fc809719e90c822d5533613788ab730fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 088/132] fix: INI parser refuses section names that aren't
 closed

---
 src/config/ini.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/ini.hpp b/src/config/ini.hpp
index 8d9cded..c3c18cb 100644
--- a/src/config/ini.hpp
+++ b/src/config/ini.hpp
@@ -117,6 +117,9 @@ namespace INI
       if (line_[depth] != '[')
         break;
 
+    if (line_.length() < 2 * depth || line_.substr(line_.length() - depth) != std::string(depth, ']'))
+      err("section name isn't closed");
+
     sname = line_.substr(depth, line_.length() - 2 * depth);
   }
 
-- 
2.43.0


From 331237c2c79cbaf2cf188ca63a31daddac38527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 089/132] fix: ConfigLoader refuses numbers followed by
 something else and negative unsigned ones

---
 src/config/ConfigLoader.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config/ConfigLoader.hpp b/src/config/ConfigLoader.hpp
index 1eec7f0..18f6bc8 100644
--- a/src/config/ConfigLoader.hpp
+++ b/src/config/ConfigLoader.hpp
@@ -1,4 +1,5 @@
 #include <sstream>
+#include <limits>
 #include <Exceptions.h>
 #include <ContainerTools.hpp>
 
@@ -25,7 +26,11 @@ Converter<TargetType>::operator()(const std::string &s_) const
   TargetType val;
   buffer >> val;
 
-  if (buffer.fail())
+  // all of the text has to be used, and streams wrap negative numbers for unsigned types
+  bool failed = buffer.fail() || !(buffer >> std::ws).eof() ||
+                (!std::numeric_limits<TargetType>::is_signed && s_.find('-') != std::string::npos);
+
+  if (failed)
     throw ValueError("String conversion failed : value is invalid (this can mean the numerical type isn't big enough)");
 
   return val;
-- 
2.43.0


From dda40a20f79f0cca64c6f7bae6e5e2d29a49c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 090/132] fix: ConfigLoader::Load converts the elements of
 containers

---
 src/config/ConfigLoader.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/config/ConfigLoader.hpp b/src/config/ConfigLoader.hpp
index 18f6bc8..e53102e 100644
--- a/src/config/ConfigLoader.hpp
+++ b/src/config/ConfigLoader.hpp
@@ -15,7 +15,7 @@ template <typename TargetType>
 void ConfigLoader::Load(const std::string &section_, const std::string &fieldName_, TargetType &loadVal_, typename enable_if<is_container<TargetType>::value, int>::type)
 {
   CheckExists(section_, fieldName_);
-  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<TargetType>());
+  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<typename TargetType::value_type>());
 }
 
 template <typename TargetType>
@@ -39,8 +39,15 @@ Converter<TargetType>::operator()(const std::string &s_) const
 template <typename InContainer, typename OutContainer, typename ConverterSp>
 void ConvertContainer(const InContainer &incntr_, OutContainer &outcntr_, const ConverterSp &cnvtr_)
 {
+  // convert everything first, so that nothing is added if one of them fails
+  std::vector<typename OutContainer::value_type> converted;
   for (typename InContainer::const_iterator it = incntr_.begin(); it != incntr_.end(); ++it)
   {
-    outcntr_.insert(outcntr_.end(), *it);
+    converted.push_back(cnvtr_(*it));
+  }
+
+  for (size_t i = 0; i < converted.size(); i++)
+  {
+    outcntr_.insert(outcntr_.end(), converted[i]);
   }
 }
-- 
2.43.0


From c0a56fc0dc57cb4d4ec7678d272d241babd33665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 091/132] fix: IO saves name lists of any length

---
 src/data/IO.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index a850d95..8de270f 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -100,11 +100,11 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    //  64 chars max in str to save space
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    const std::string flatNames = FlattenStringVector(observableNames);
+    H5::StrType strType(H5::PredType::C_S1, flatNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
-    obsListAtt.write(strType, FlattenStringVector(observableNames));
+    obsListAtt.write(strType, flatNames);
 
     H5::Attribute countAtt = theData.createAttribute("n_observables",
                                                      H5::PredType::NATIVE_INT,
@@ -355,14 +355,17 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     }
 
     // save axes names and latex names
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    const std::string flatNames = FlattenStringVector(axisNames);
+    const std::string flatLatexNames = FlattenStringVector(axisLatexNames);
+    H5::StrType nameType(H5::PredType::C_S1, flatNames.size() + 1);
+    H5::StrType latexNameType(H5::PredType::C_S1, flatLatexNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
 
-    H5::Attribute nameListAtt = theData.createAttribute("axis_names", strType, attSpace);
-    nameListAtt.write(strType, FlattenStringVector(axisNames));
+    H5::Attribute nameListAtt = theData.createAttribute("axis_names", nameType, attSpace);
+    nameListAtt.write(nameType, flatNames);
 
-    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", strType, attSpace);
-    latexNameListAtt.write(strType, FlattenStringVector(axisLatexNames));
+    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", latexNameType, attSpace);
+    latexNameListAtt.write(latexNameType, flatLatexNames);
 
     // save nbins, ndims
     H5::Attribute dimAtt = theData.createAttribute("n_dims",
-- 
2.43.0


From 7b3adcdc17498416a5a5b257d9a586738e4106f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 092/132] fix: IO refuses to save names that contain its
 delimiter

---
 src/data/IO.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 8de270f..fe1a882 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -47,12 +47,7 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
         return;
     }
 
-    std::string branchString = dataSet_.GetObservableNames().at(0);
-    for (size_t i = 1; i < dataSet_.GetObservableNames().size(); i++)
-    {
-        branchString += ":";
-        branchString += dataSet_.GetObservableNames().at(i);
-    }
+    std::string branchString = FlattenStringVector(dataSet_.GetObservableNames());
 
     TFile f(filename_.c_str(), "RECREATE");
     TNtuple nt(treename_.c_str(), "", branchString.c_str());
@@ -90,6 +85,8 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
 
+    const std::string flatNames = FlattenStringVector(observableNames);
+
     // Set up files
     H5::H5File file(filename_, H5F_ACC_TRUNC);
     // Set up the data set
@@ -100,7 +97,6 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    const std::string flatNames = FlattenStringVector(observableNames);
     H5::StrType strType(H5::PredType::C_S1, flatNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
@@ -270,6 +266,10 @@ IO::FlattenStringVector(const std::vector<std::string> &vec_)
     if (!vec_.size())
         return flatString;
 
+    for (size_t i = 0; i < vec_.size(); i++)
+        if (vec_.at(i).find(fDelimiter) != std::string::npos)
+            throw IOError("IO:: Can't save the name " + vec_.at(i) + ", names are delimited by " + fDelimiter);
+
     flatString += vec_.at(0);
     for (size_t i = 1; i < vec_.size(); i++)
         flatString += fDelimiter + vec_.at(i);
@@ -338,13 +338,6 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     hsize_t nBins[] = {histo_.GetNBins()};
     std::vector<double> contents = histo_.GetBinContents();
 
-    // create the file
-    H5::H5File file(fileName_, H5F_ACC_TRUNC);
-
-    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
-    H5::DataSpace dataSpace(1, nBins);
-    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
-
     // grab axis names
     std::vector<std::string> axisNames;
     std::vector<std::string> axisLatexNames;
@@ -353,10 +346,17 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
         axisNames.push_back(histo_.GetAxes().GetAxis(i).GetName());
         axisLatexNames.push_back(histo_.GetAxes().GetAxis(i).GetLatexName());
     }
-
-    // save axes names and latex names
     const std::string flatNames = FlattenStringVector(axisNames);
     const std::string flatLatexNames = FlattenStringVector(axisLatexNames);
+
+    // create the file
+    H5::H5File file(fileName_, H5F_ACC_TRUNC);
+
+    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
+    H5::DataSpace dataSpace(1, nBins);
+    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
+
+    // save axes names and latex names
     H5::StrType nameType(H5::PredType::C_S1, flatNames.size() + 1);
     H5::StrType latexNameType(H5::PredType::C_S1, flatLatexNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
-- 
2.43.0


From afd9d095a275d3a8af5cd77175ff41c8495ee0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 093/132] fix: IO saves and loads empty data sets

---
 src/data/IO.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index fe1a882..138784f 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -78,10 +78,12 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     // Get the relevant params
     hsize_t nEntries = dataSet_.GetNEntries();
     hsize_t nObs = dataSet_.GetNObservables();
-    hsize_t nData = nObs * nEntries;
 
     // create colon separated string from list of observables
     std::vector<std::string> observableNames = dataSet_.GetObservableNames();
+    if (!nEntries)
+        nObs = observableNames.size(); // only known once there are events
+    hsize_t nData = nObs * nEntries;
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
 
@@ -133,6 +135,8 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
             stopEntry = nEntries;
 
         nSlabEntries = stopEntry - startEntry;
+        if (!nSlabEntries)
+            continue;
 
         // work out the data range
         startSlab[0] = startEntry * nObs;
@@ -182,11 +186,14 @@ IO::LoadDataSet(const std::string &filename_)
     OXSXDataSet *oxsxDataSet = new OXSXDataSet;
 
     // Set the variable names
-    oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
+    if (nObs)
+        oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
 
     // Read data out as 1D array
     hsize_t nData = 0;
     dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
+    if (!nData)
+        return oxsxDataSet;
     size_t nEntries = nData / nObs;
     oxsxDataSet->Reserve(nEntries);
 
-- 
2.43.0


From fc61604f16e58e565b6c43afb7102a38629f2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 094/132] fix: IO saves and loads histograms without bins

---
 src/data/IO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 138784f..5550a87 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -404,7 +404,7 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     }
 
     // now save the bin contents
-    theData.write(&contents[0], H5::PredType::NATIVE_DOUBLE, dataSpace);
+    theData.write(contents.data(), H5::PredType::NATIVE_DOUBLE, dataSpace);
 
     return;
 }
@@ -450,7 +450,7 @@ IO::LoadHistogram(const std::string &fileName_)
     hsize_t nData = 0;
     dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
     std::vector<double> binContents(nData, 0);
-    dataSet.read(&binContents[0], H5::PredType::NATIVE_DOUBLE);
+    dataSet.read(binContents.data(), H5::PredType::NATIVE_DOUBLE);
 
     // Now read the axis information and use it to build axes objects in memory
     // first build the axes
-- 
2.43.0


From dad23b3e1f618fa3c9e6168d3e6967fe0931a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 095/132] fix: IO reports HDF5 failures as IOError

---
 src/data/IO.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 5550a87..c6672d1 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -12,6 +12,7 @@
 #include <DistTools.h>
 #include <TH1D.h>
 #include <TH2D.h>
+#include <memory>
 
 const char IO::fDelimiter = ':';
 
@@ -74,6 +75,7 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
 }
 
 void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
+try
 {
     // Get the relevant params
     hsize_t nEntries = dataSet_.GetNEntries();
@@ -155,9 +157,14 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
         theData.write(&flattenedData.at(0), H5::PredType::NATIVE_DOUBLE, mspace, dataSpace);
     } // slab loop
 }
+catch (const H5::Exception &)
+{
+    throw IOError("Failed to save data set to file : " + filename_);
+}
 
 OXSXDataSet *
 IO::LoadDataSet(const std::string &filename_)
+try
 {
     std::cout << "IO::Loading " << filename_ << std::endl;
     // Get Data Set
@@ -183,7 +190,7 @@ IO::LoadDataSet(const std::string &filename_)
     countAtt.read(countAtt.getDataType(), &nObs);
 
     // Assemble into an OXSX data set
-    OXSXDataSet *oxsxDataSet = new OXSXDataSet;
+    std::unique_ptr<OXSXDataSet> oxsxDataSet(new OXSXDataSet);
 
     // Set the variable names
     if (nObs)
@@ -193,7 +200,7 @@ IO::LoadDataSet(const std::string &filename_)
     hsize_t nData = 0;
     dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
     if (!nData)
-        return oxsxDataSet;
+        return oxsxDataSet.release();
     size_t nEntries = nData / nObs;
     oxsxDataSet->Reserve(nEntries);
 
@@ -263,7 +270,11 @@ IO::LoadDataSet(const std::string &filename_)
         }
 
     } // else..
-    return oxsxDataSet;
+    return oxsxDataSet.release();
+}
+catch (const H5::Exception &)
+{
+    throw IOError("Failed to read a data set from file : " + filename_);
 }
 
 std::string
@@ -340,6 +351,7 @@ void IO::SaveHistogramROOT(const Histogram &hist_, const std::string &filename_,
 }
 
 void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
+try
 {
     hsize_t nDims[] = {histo_.GetNDims()};
     hsize_t nBins[] = {histo_.GetNBins()};
@@ -408,9 +420,14 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
 
     return;
 }
+catch (const H5::Exception &)
+{
+    throw IOError("Failed to save histogram to file : " + fileName_);
+}
 
 Histogram
 IO::LoadHistogram(const std::string &fileName_)
+try
 {
     std::cout << "IO::Loading " << fileName_ << std::endl;
 
@@ -488,3 +505,7 @@ IO::LoadHistogram(const std::string &fileName_)
 
     return loadedHisto;
 }
+catch (const H5::Exception &)
+{
+    throw IOError("Failed to read a histogram from file : " + fileName_);
+}
-- 
2.43.0


From f1b5b361255efa34ac31d6c58be5a065b3a4b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 096/132] fix: LazyOXSXDataSet's events outlive the loaded data

---
 src/data/LazyOXSXDataSet.cpp | 6 +++++-
 src/data/LazyOXSXDataSet.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index d043602..7464bae 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -55,6 +55,7 @@ void LazyOXSXDataSet::Load() const
   for (size_t i = 0; i < fFiles.size(); i++)
     fFiles[i]->Close();
   fDataSet = IO::LoadDataSet(fFileName);
+  fObsNames = fDataSet->GetObservableNames();
 }
 
 void LazyOXSXDataSet::Close() const
@@ -77,6 +78,9 @@ Event LazyOXSXDataSet::GetEntry(size_t i_) const
 {
   if (!fDataSet)
     Load();
-  return fDataSet->GetEntry(i_);
+  // the loaded data is dropped when another file is loaded, its events can still be in use
+  Event event(fDataSet->GetEntry(i_));
+  event.SetObservableNames(&fObsNames);
+  return event;
 }
 std::vector<LazyOXSXDataSet *> LazyOXSXDataSet::fFiles;
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 1aa54b3..faa6ae5 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -35,5 +35,6 @@ private:
     static std::vector<LazyOXSXDataSet *> fFiles;
     std::string fFileName;
     mutable OXSXDataSet *fDataSet;
+    mutable std::vector<std::string> fObsNames;
 };
 #endif
-- 
2.43.0


From 77b75b7f34545d9a639c4d95f043e19e4fde4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 097/132] fix: IO saves attributes larger than 64kB

---
 src/data/IO.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index c6672d1..055290e 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -91,8 +91,10 @@ try
 
     const std::string flatNames = FlattenStringVector(observableNames);
 
-    // Set up files
-    H5::H5File file(filename_, H5F_ACC_TRUNC);
+    // Set up files, the older formats limit attributes (here the names) to 64kB
+    H5::FileAccPropList access;
+    access.setLibverBounds(H5F_LIBVER_V18, H5F_LIBVER_LATEST);
+    H5::H5File file(filename_, H5F_ACC_TRUNC, H5::FileCreatPropList::DEFAULT, access);
     // Set up the data set
     // 1D, ndata long, called "observations". Saved as native doubles on this computer
     H5::DataSpace dataSpace(1, &nData);
@@ -368,8 +370,10 @@ try
     const std::string flatNames = FlattenStringVector(axisNames);
     const std::string flatLatexNames = FlattenStringVector(axisLatexNames);
 
-    // create the file
-    H5::H5File file(fileName_, H5F_ACC_TRUNC);
+    // create the file, the older formats limit attributes (here bin edges) to 64kB
+    H5::FileAccPropList access;
+    access.setLibverBounds(H5F_LIBVER_V18, H5F_LIBVER_LATEST);
+    H5::H5File file(fileName_, H5F_ACC_TRUNC, H5::FileCreatPropList::DEFAULT, access);
 
     // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
     H5::DataSpace dataSpace(1, nBins);
-- 
2.43.0


From de1f58db15cdc2c2a7e8362befd1bedbdc3780de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 098/132] fix: DataSetGenerator's random draws can pick every
 event

---
 src/data/DataSetGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 97a621f..ba21827 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -211,7 +211,7 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (max == static_cast<size_t>(-999))
       max = eventIndices.size() - 1;
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1); // including the last one
 
     cache = eventIndices[draw];
     eventIndices[draw] = eventIndices[max];
@@ -259,7 +259,7 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
       max = eventIndices.size() - 1;
 
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1); // including the last one
 
     // return
     if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-- 
2.43.0


From 4ce43c5f1231f42fef94e54f7f05fcff4a153401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 099/132] fix: DataSetGenerator bootstraps from the whole data
 set

---
 src/data/DataSetGenerator.cpp | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index ba21827..bcdcc41 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -232,21 +232,11 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
                                                   OXSXDataSet &outData_)
 {
 
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
   size_t draw = -1; // the random draw
 
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
@@ -255,15 +245,12 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw
-    draw = Rand::Shoot(max + 1); // including the last one
+    // draw from all of the events, whatever was drawn before
+    draw = Rand::Shoot(origData->GetNEntries());
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[draw]));
+    if (fCuts.PassesCuts(origData->GetEntry(draw)))
+      outData_.AddEntry(origData->GetEntry(draw));
   }
 
   return;
-- 
2.43.0


From e12920f5f952827bca9d44ccc4fbefcddd47bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 100/132] fix: DataSetGenerator draws sequentially in order,
 each event once

---
 src/data/DataSetGenerator.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index bcdcc41..6b9f24b 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -309,8 +309,10 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
-  size_t draw = -1; // the random draw
-  size_t cache = -1;
+  // the events to draw are the first ones left, move them to the end in their order
+  std::rotate(eventIndices.begin(), eventIndices.begin() + nEvents_, eventIndices.begin() + max + 1);
+  const size_t first = max + 1 - nEvents_;
+
   // data_.Reserve(data_.GetNEntries() + nEvents_);
 
   size_t oneTenth = nEvents_ / 10;
@@ -319,24 +321,11 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     if (oneTenth && !(i % oneTenth))
       std::cout << i << "/" << nEvents_ << "   (  " << 10 * i / oneTenth << " %)" << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw --> always take the first one
-    draw = 0;
-
-    // swap
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
-
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      data_.AddEntry(origData->GetEntry(eventIndices[draw]));
-
-    // deincrement
-    max--;
+    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[first + i])))
+      data_.AddEntry(origData->GetEntry(eventIndices[first + i]));
   }
+  max -= nEvents_;
 
   return;
 }
-- 
2.43.0


From 59537b576f8fd0594172a72241b4e8083fffe8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 101/132] fix: DataSetGenerator refuses to draw more events
 than are left

---
 src/data/DataSetGenerator.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 6b9f24b..1d2ec84 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -194,10 +194,10 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > max + 1)
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsNoReplacement() asked for "
-                                    << nEvents_ << " but only have " << origData->GetNEntries()
-                                    << "events!)");
+                                    << nEvents_ << " but only have " << max + 1
+                                    << " events left!)");
 
   size_t cache = -1; // for swapping
   size_t draw = -1;  // the random draw
@@ -208,8 +208,6 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
     // draw
     draw = Rand::Shoot(max + 1); // including the last one
 
@@ -291,11 +289,6 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
   size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (nEvents_ > origData->GetNEntries())
-    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
-                                    << "\n\t (asked for " << nEvents_
-                                    << " but only have " << max << " (left)");
-
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
@@ -309,6 +302,11 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
+  if (nEvents_ > max + 1)
+    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
+                                    << "\n\t (asked for " << nEvents_
+                                    << " but only have " << max + 1 << " left)");
+
   // the events to draw are the first ones left, move them to the end in their order
   std::rotate(eventIndices.begin(), eventIndices.begin() + nEvents_, eventIndices.begin() + max + 1);
   const size_t first = max + 1 - nEvents_;
-- 
2.43.0


From 6def496c1b480af50f893d0186f9f07a4ac206d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 102/132] fix: DataSetGenerator::AllRemainingEvents before the
 first draw, and its count

---
 src/data/DataSetGenerator.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 1d2ec84..691659c 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -260,7 +260,7 @@ void DataSetGenerator::AddDataSet(DataSet *data_, double rate_, bool flag_)
   fDataSets.push_back(data_);
   fExpectedRates.push_back(rate_);
   fEventIndicies.push_back(std::vector<size_t>());
-  fMaxs.push_back(0);
+  fMaxs.push_back(-999);
 }
 
 const std::vector<bool> &
@@ -346,25 +346,24 @@ DataSetGenerator::AllRemainingEvents(size_t iDS_, int *eventsTaken_)
   ds->SetObservableNames(fDataSets.at(iDS_)->GetObservableNames());
   *eventsTaken_ = 0;
 
-  size_t nEvents = fMaxs.at(iDS_);
-  if (nEvents == static_cast<size_t>(-999))
-    nEvents = (fDataSets.at(iDS_)->GetNEntries()) - 1;
-
-  if (nEvents == static_cast<size_t>(-1))
-    return ds; // in case all events drawn and not replaced
-
   const std::vector<size_t> &eventIndices = fEventIndicies[iDS_];
 
+  // nothing has been drawn if there are no indices yet
+  size_t nEvents = fDataSets.at(iDS_)->GetNEntries();
+  if (eventIndices.size())
+    nEvents = fMaxs.at(iDS_) + 1;
+
   size_t oneTenth = nEvents / 10;
 
-  for (size_t jEV = 0; jEV <= nEvents; jEV++)
+  for (size_t jEV = 0; jEV < nEvents; jEV++)
   {
     if (oneTenth && !(jEV % oneTenth))
       std::cout << jEV << "/" << nEvents << "\t"
                 << "(" << 10 * jEV / oneTenth
                 << "%)"
                 << std::endl;
-    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(eventIndices.at(jEV)));
+    size_t index = eventIndices.size() ? eventIndices.at(jEV) : jEV;
+    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(index));
   }
 
   *eventsTaken_ = nEvents;
-- 
2.43.0


From 19ce90609b2fa429b812e35cea90948ad20a8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 103/132] fix: DataSetGenerator::AllValidEvents applies the
 cuts

---
 src/data/DataSetGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 691659c..a04b54e 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -137,6 +137,9 @@ DataSetGenerator::AllValidEvents(std::vector<int> *eventsTaken_)
     eventsTaken_->clear();
   }
 
+  if (!fDataSets.size())
+    throw LogicError("Can't generate fake data: no input data sets");
+
   OXSXDataSet dataSet;
   dataSet.SetObservableNames(fDataSets.at(0)->GetObservableNames());
   for (size_t i = 0; i < fDataSets.size(); i++)
@@ -144,7 +147,8 @@ DataSetGenerator::AllValidEvents(std::vector<int> *eventsTaken_)
     for (size_t j = 0; j < fDataSets.at(i)->GetNEntries(); j++)
     {
       Event event_ = fDataSets.at(i)->GetEntry(j);
-      dataSet.AddEntry(event_);
+      if (fCuts.PassesCuts(event_))
+        dataSet.AddEntry(event_);
     } // events
 
     if (eventsTaken_)
-- 
2.43.0


From dc08f4cb8b5c15914f06143a64aafdb22e1f0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 104/132] fix: DataSetGenerator refuses too few flags

---
 src/data/DataSetGenerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index a04b54e..d3e9a34 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -55,7 +55,7 @@ DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
   {
     unsigned expectedCounts = round(fExpectedRates.at(i));
 
-    if (fBootstraps.size() == 0)
+    if (fBootstraps.size() <= i)
       throw NotFoundError("Bootstrap flags not set for dataset");
 
     if (fBootstraps.at(i))
@@ -63,7 +63,7 @@ DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
     else
     {
 
-      if (fSequentialFlags.size() == 0)
+      if (fSequentialFlags.size() <= i)
         throw NotFoundError("Sequential flags not set for dataset");
 
       if (fSequentialFlags.at(i))
@@ -103,7 +103,7 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
   {
     size_t counts = Rand::Poisson(fExpectedRates.at(i));
 
-    if (fBootstraps.size() == 0)
+    if (fBootstraps.size() <= i)
       throw NotFoundError("Bootstrap flags not set for dataset");
 
     if (fBootstraps.at(i))
@@ -112,7 +112,7 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
     else
     {
 
-      if (fSequentialFlags.size() == 0)
+      if (fSequentialFlags.size() <= i)
         throw NotFoundError("Sequential flags not set for dataset");
 
       if (fSequentialFlags.at(i))
-- 
2.43.0


From 526b6acfdd10199a9064bd56585f7f400b579451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 105/132] fix: DataSetGenerator refuses a generation before
 drawing anything

---
 src/data/DataSetGenerator.cpp | 48 ++++++++++++++++++++++++++++++++---
 src/data/DataSetGenerator.h   |  1 +
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index d3e9a34..6ea7573 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -49,11 +49,20 @@ DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
     eventsTaken_->clear();
   }
 
+  std::vector<size_t> allCounts;
+  for (size_t i = 0; i < fDataSets.size(); i++)
+  {
+    if (!(fExpectedRates.at(i) >= 0))
+      throw ValueError("Can't generate fake data: rates can't be negative");
+    allCounts.push_back(round(fExpectedRates.at(i)));
+  }
+  CheckDraws(allCounts);
+
   OXSXDataSet dataSet;
   dataSet.SetObservableNames(fDataSets.at(0)->GetObservableNames());
   for (size_t i = 0; i < fDataSets.size(); i++)
   {
-    unsigned expectedCounts = round(fExpectedRates.at(i));
+    size_t expectedCounts = allCounts.at(i);
 
     if (fBootstraps.size() <= i)
       throw NotFoundError("Bootstrap flags not set for dataset");
@@ -92,6 +101,10 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
     eventsTaken_->clear();
   }
 
+  for (size_t i = 0; i < fDataSets.size(); i++)
+    if (!(fExpectedRates.at(i) >= 0))
+      throw ValueError("Can't generate fake data: rates can't be negative");
+
   // work out how much memory you'll probably need
   int eventsNeeded = std::accumulate(fExpectedRates.begin(), fExpectedRates.end(), 0.0) * 1.2;
 
@@ -99,9 +112,14 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
   dataSet.SetObservableNames(fDataSets.at(0)->GetObservableNames());
   dataSet.Reserve(eventsNeeded);
 
+  std::vector<size_t> allCounts;
+  for (size_t i = 0; i < fDataSets.size(); i++)
+    allCounts.push_back(Rand::Poisson(fExpectedRates.at(i)));
+  CheckDraws(allCounts);
+
   for (size_t i = 0; i < fDataSets.size(); i++)
   {
-    size_t counts = Rand::Poisson(fExpectedRates.at(i));
+    size_t counts = allCounts.at(i);
 
     if (fBootstraps.size() <= i)
       throw NotFoundError("Bootstrap flags not set for dataset");
@@ -180,6 +198,28 @@ void DataSetGenerator::Reset()
   fMaxs = std::vector<size_t>(fDataSets.size(), -999);
 }
 
+// refuse before anything has been drawn, those events would be lost
+void DataSetGenerator::CheckDraws(const std::vector<size_t> &counts_) const
+{
+  for (size_t i = 0; i < counts_.size(); i++)
+  {
+    if (fBootstraps.size() <= i)
+      throw NotFoundError("Bootstrap flags not set for dataset");
+
+    if (!fBootstraps[i] && fSequentialFlags.size() <= i)
+      throw NotFoundError("Sequential flags not set for dataset");
+
+    size_t nEntries = fDataSets.at(i)->GetNEntries();
+    if (!nEntries && counts_[i])
+      throw NotFoundError(Formatter() << "DataSetGenerator:: asked for " << counts_[i] << " but there are no events!");
+
+    size_t nLeft = fEventIndicies.at(i).size() ? fMaxs.at(i) + 1 : nEntries;
+    if (!fBootstraps[i] && counts_[i] > nLeft)
+      throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events! (asked for " << counts_[i]
+                                      << " but only have " << nLeft << " left)");
+  }
+}
+
 void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_,
                                                 OXSXDataSet &outData_)
 {
@@ -235,7 +275,7 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
 {
 
   DataSet *origData = fDataSets.at(handleIndex_);
-  if (!(origData->GetNEntries()))
+  if (nEvents_ && !(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
@@ -293,7 +333,7 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
   size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (!(origData->GetNEntries()))
+  if (nEvents_ && !(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
diff --git a/src/data/DataSetGenerator.h b/src/data/DataSetGenerator.h
index edea345..23f332d 100644
--- a/src/data/DataSetGenerator.h
+++ b/src/data/DataSetGenerator.h
@@ -47,6 +47,7 @@ private:
    std::vector<double> fExpectedRates;
    std::vector<std::vector<size_t>> fEventIndicies;
    std::vector<size_t> fMaxs;
+   void CheckDraws(const std::vector<size_t> &counts_) const;
    void RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void RandomDrawsWithReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
-- 
2.43.0


From 3a8e365e94764f066c2b57102fdfc0c9169b065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 106/132] fix: DataSetGenerator::AllRemainingEvents refuses
 data sets it doesn't have

---
 src/data/DataSetGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 6ea7573..5d0c545 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -386,6 +386,9 @@ DataSetGenerator::GetSequentialFlags() const
 OXSXDataSet *
 DataSetGenerator::AllRemainingEvents(size_t iDS_, int *eventsTaken_)
 {
+  if (iDS_ >= fDataSets.size())
+    throw NotFoundError(Formatter() << "DataSetGenerator::AllRemainingEvents there is no data set " << iDS_);
+
   OXSXDataSet *ds = new OXSXDataSet();
   ds->SetObservableNames(fDataSets.at(iDS_)->GetObservableNames());
   *eventsTaken_ = 0;
-- 
2.43.0


From e6543c43c1dc275630ec9e516a5192020414973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 107/132] fix: DataSetGenerator doesn't step before its pool
 when it is used up

---
 src/data/DataSetGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 5d0c545..b36b582 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -352,7 +352,7 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
                                     << " but only have " << max + 1 << " left)");
 
   // the events to draw are the first ones left, move them to the end in their order
-  std::rotate(eventIndices.begin(), eventIndices.begin() + nEvents_, eventIndices.begin() + max + 1);
+  std::rotate(eventIndices.begin(), eventIndices.begin() + nEvents_, eventIndices.begin() + (max + 1));
   const size_t first = max + 1 - nEvents_;
 
   // data_.Reserve(data_.GetNEntries() + nEvents_);
-- 
2.43.0


From ab31b776df94921cc351c06f6b0fe9dfea365078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 108/132] fix: Rand::VonNeumannSample draws from the function

---
 src/rand/Rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/Rand.cpp b/src/rand/Rand.cpp
index 0656e90..8b87db2 100644
--- a/src/rand/Rand.cpp
+++ b/src/rand/Rand.cpp
@@ -63,11 +63,11 @@ Rand::VonNeumannSample(Function *f_, double xMin_, double xMax_, double yMax_)
   double fOfX = 1;
   double val = 0;
 
-  while (val > fOfX)
+  do
   {
     draw = Uniform() * (xMax_ - xMin_) + xMin_;
     fOfX = f_->operator()(std::vector<double>(1, draw));
     val = Uniform() * yMax_;
-  }
+  } while (val > fOfX);
   return draw;
 }
-- 
2.43.0


From 4dadd4b505349bad8252fc95fb9ca853ed3d8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 109/132] fix: BinnedEDGenerator refuses negative rates

---
 src/dist/BinnedEDGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dist/BinnedEDGenerator.cpp b/src/dist/BinnedEDGenerator.cpp
index a59cc6e..858ed96 100644
--- a/src/dist/BinnedEDGenerator.cpp
+++ b/src/dist/BinnedEDGenerator.cpp
@@ -36,6 +36,8 @@ BinnedEDGenerator::ExpectedRatesED(const std::string &name) const
     fakePdf.Empty();
     for (size_t i = 0; i < fPdfs.size(); i++)
     {
+        if (!(fRates.at(i) >= 0))
+            throw ValueError("BinnedEDGenerator::rates can't be negative");
         unsigned counts = round(fRates.at(i));
         for (unsigned _ = 0; _ < counts; _++)
             fakePdf.AddBinContent(RandomBin(i), 1);
@@ -74,6 +76,8 @@ BinnedEDGenerator::PoissonFluctuatedED(const std::string &name) const
     fakePdf.Empty();
     for (size_t i = 0; i < fPdfs.size(); i++)
     {
+        if (!(fRates.at(i) >= 0))
+            throw ValueError("BinnedEDGenerator::rates can't be negative");
         unsigned counts = Rand::Poisson(fRates.at(i));
         for (unsigned _ = 0; _ < counts; _++)
             fakePdf.AddBinContent(RandomBin(i), 1);
-- 
2.43.0


From b20ea665e6c8d73461f7596f2864286b78ab450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 110/132] fix: BinnedEDGenerator refuses to draw from an empty
 or negative pdf

---
 src/dist/BinnedEDGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dist/BinnedEDGenerator.cpp b/src/dist/BinnedEDGenerator.cpp
index 858ed96..17eba3f 100644
--- a/src/dist/BinnedEDGenerator.cpp
+++ b/src/dist/BinnedEDGenerator.cpp
@@ -97,10 +97,15 @@ BinnedEDGenerator::RandomBin(size_t pdfIndex_) const
     double sum = 0;
     for (size_t i = 0; i < cdf.size(); i++)
     {
+        if (!(fPdfs.at(pdfIndex_).GetBinContent(i) >= 0))
+            throw ValueError("BinnedEDGenerator::Pdf " + fPdfs.at(pdfIndex_).GetName() + " has a negative bin!");
         sum += fPdfs.at(pdfIndex_).GetBinContent(i);
         cdf[i] = sum;
     }
 
+    if (!(sum > 0))
+        throw ValueError("BinnedEDGenerator::Pdf " + fPdfs.at(pdfIndex_).GetName() + " is empty, can't draw from it!");
+
     for (size_t i = 0; i < cdf.size(); i++)
         cdf[i] /= sum;
 
-- 
2.43.0


From bf2ee3855fe68da2fcb4118878a0d4798285b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 111/132] fix: BinnedEDGenerator refuses pdfs with different
 binnings

---
 src/dist/BinnedEDGenerator.cpp | 13 +++++++++++++
 src/dist/BinnedEDGenerator.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/dist/BinnedEDGenerator.cpp b/src/dist/BinnedEDGenerator.cpp
index 17eba3f..aa366d9 100644
--- a/src/dist/BinnedEDGenerator.cpp
+++ b/src/dist/BinnedEDGenerator.cpp
@@ -15,6 +15,8 @@ BinnedEDGenerator::ExpectedRatesED(const std::string &name) const
     if (!fPdfs.size())
         throw LogicError("BinnedEDGenerator::No source pdfs!!");
 
+    CheckBinning();
+
     BinnedED fakePdf(fPdfs.at(0));
 
     if (name == "")
@@ -55,6 +57,8 @@ BinnedEDGenerator::PoissonFluctuatedED(const std::string &name) const
     if (!fPdfs.size())
         throw LogicError("BinnedEDGenerator::No source pdfs!!");
 
+    CheckBinning();
+
     BinnedED fakePdf(fPdfs.at(0));
 
     if (name == "")
@@ -86,6 +90,15 @@ BinnedEDGenerator::PoissonFluctuatedED(const std::string &name) const
     return fakePdf;
 }
 
+void BinnedEDGenerator::CheckBinning() const
+{
+    for (size_t i = 1; i < fPdfs.size(); i++)
+    {
+        if (fPdfs.at(i).GetAxes() != fPdfs.at(0).GetAxes())
+            throw LogicError("BinnedEDGenerator::source pdfs need the same binning!");
+    }
+}
+
 size_t
 BinnedEDGenerator::RandomBin(size_t pdfIndex_) const
 {
diff --git a/src/dist/BinnedEDGenerator.h b/src/dist/BinnedEDGenerator.h
index aa08a84..8ac4db8 100644
--- a/src/dist/BinnedEDGenerator.h
+++ b/src/dist/BinnedEDGenerator.h
@@ -18,5 +18,6 @@ private:
    std::vector<BinnedED> fPdfs;
    std::vector<double> fRates;
    size_t RandomBin(size_t pdfIndex_) const;
+   void CheckBinning() const;
 };
 #endif
-- 
2.43.0


From 8744a37a9d2dce3df0fc16ff973667f96a81f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 112/132] fix: CountingExperiment refuses to count a signal it
 doesn't have

---
 src/count/CountingExperiment.cpp | 4 ++++
 src/count/CountingExperiment.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index c4a39f2..33eef12 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -1,6 +1,7 @@
 #include <CountingExperiment.h>
 #include <Event.h>
 #include <DataSet.h>
+#include <Exceptions.h>
 #include <Formatter.hpp>
 #include <iostream>
 #include <cmath>
@@ -45,6 +46,9 @@ void CountingExperiment::CountBackgrounds()
 
 void CountingExperiment::CountSignal()
 {
+    if (!fSignalDataSet)
+        throw LogicError("CountingExperiment::CountSignal - no signal has been set");
+
     int signalCount = 0;
     CutLog cutLog = (fCuts.GetCutNames());
     for (size_t i = 0; i < fSignalDataSet->GetNEntries(); i++)
diff --git a/src/count/CountingExperiment.h b/src/count/CountingExperiment.h
index 4411219..2d3fc11 100644
--- a/src/count/CountingExperiment.h
+++ b/src/count/CountingExperiment.h
@@ -10,6 +10,8 @@ class EventSystematic;
 class CountingExperiment
 {
 public:
+   CountingExperiment() : fTestDataSet(NULL), fSignalDataSet(NULL) {}
+
    void CountData(DataSet *);
    void CountBackgrounds();
    void CountSignal();
-- 
2.43.0


From b19ac2edea4fe1cba77caa82e2ee0c91f38e5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 113/132] fix: CountingExperiment refuses empty simulated data
 sets

---
 src/count/CountingExperiment.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index 33eef12..0ae0c3c 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -22,6 +22,12 @@ void CountingExperiment::CountData(DataSet *testData_)
 
 void CountingExperiment::CountBackgrounds()
 {
+    for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
+    {
+        if (!fBackgroundDataSets.at(i)->GetNEntries())
+            throw ValueError("CountingExperiment::CountBackgrounds - data set for " + fBackgroundNames.at(i) + " is empty, it has no efficiency");
+    }
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
@@ -48,6 +54,8 @@ void CountingExperiment::CountSignal()
 {
     if (!fSignalDataSet)
         throw LogicError("CountingExperiment::CountSignal - no signal has been set");
+    if (!fSignalDataSet->GetNEntries())
+        throw ValueError("CountingExperiment::CountSignal - the signal data set is empty, it has no efficiency");
 
     int signalCount = 0;
     CutLog cutLog = (fCuts.GetCutNames());
-- 
2.43.0


From 0c05127d78f3a03c17f88525bac064e3ca965b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 114/132] fix: CountingExperiment::CountBackgrounds starts
 afresh

---
 src/count/CountingExperiment.cpp | 2 ++
 src/count/CountingResult.cpp     | 8 ++++++++
 src/count/CountingResult.h       | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index 0ae0c3c..72049c7 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -28,6 +28,8 @@ void CountingExperiment::CountBackgrounds()
             throw ValueError("CountingExperiment::CountBackgrounds - data set for " + fBackgroundNames.at(i) + " is empty, it has no efficiency");
     }
 
+    fResult.ClearBackgrounds();
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 768d6f2..c9b1a75 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -20,6 +20,14 @@ void CountingResult::AddBackground(double expectedRate_, const std::string &name
     fBackgroundLogs.push_back(log_);
 }
 
+void CountingResult::ClearBackgrounds()
+{
+    fExpectedRates.clear();
+    fExpectedRateErrors.clear();
+    fBackgroundNames.clear();
+    fBackgroundLogs.clear();
+}
+
 void CountingResult::SetDataLog(const CutLog &log_)
 {
     fDataLog = log_;
diff --git a/src/count/CountingResult.h b/src/count/CountingResult.h
index ef0c40c..6c3da32 100644
--- a/src/count/CountingResult.h
+++ b/src/count/CountingResult.h
@@ -10,6 +10,7 @@ public:
    CountingResult() : fObservedCounts(-1), fSignalEfficiency(-1) {}
    void AddBackground(double expectedRate_, const std::string &name_,
                       double error_, const CutLog &);
+   void ClearBackgrounds();
    void SetSignal(double sigEff_, const std::string &name_, const CutLog &);
 
    void SetDataLog(const CutLog &);
-- 
2.43.0


From b66233bf0a28f8a663743253b8704f01eebd245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 115/132] fix: CountingResult prints each background's own
 error

---
 src/count/CountingResult.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index c9b1a75..6d8664a 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -2,8 +2,8 @@
 #include <Formatter.hpp>
 #include <Comparison.hpp>
 #include <utility>
+#include <functional>
 #include <algorithm>
-#include <map>
 #include <numeric>
 #include <fstream>
 #include <iostream>
@@ -147,26 +147,25 @@ CountingResult::AsString()
                  << std::setw(10)
                  << "Counts";
 
-    std::vector<std::pair<std::string, double>> sortedRatesByName;
-    std::map<std::string, double> sortedErrorsByName;
+    // background number, rate. names needn't be unique
+    std::vector<std::pair<size_t, double>> sortedRates;
     for (size_t i = 0; i < fExpectedRates.size(); i++)
     {
-        sortedRatesByName.push_back(std::pair<std::string, double>(fBackgroundNames.at(i), fExpectedRates.at(i)));
-        sortedErrorsByName[fBackgroundNames.at(i)] = fExpectedRateErrors.at(i);
+        sortedRates.push_back(std::pair<size_t, double>(i, fExpectedRates.at(i)));
     }
-    std::sort(sortedRatesByName.begin(), sortedRatesByName.end(), PairSortBySecond<std::string, double, std::greater<double>>());
+    std::sort(sortedRates.begin(), sortedRates.end(), PairSortBySecond<size_t, double, std::greater<double>>());
 
-    for (size_t i = 0; i < sortedRatesByName.size(); i++)
+    for (size_t i = 0; i < sortedRates.size(); i++)
     {
         resultString << "\n"
                      << std::setw(25)
                      << std::left
-                     << sortedRatesByName.at(i).first
+                     << fBackgroundNames.at(sortedRates.at(i).first)
                      << std::setw(10)
                      << std::left
-                     << sortedRatesByName.at(i).second
+                     << sortedRates.at(i).second
                      << " +- "
-                     << sortedErrorsByName[sortedRatesByName.at(i).first];
+                     << fExpectedRateErrors.at(sortedRates.at(i).first);
     }
 
     resultString << "\n"
-- 
2.43.0


From 1936298c3fcfdb4597da46973eb08fb8861db9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 116/132] fix: CountingResult::SaveAs reports a file it can't
 write

---
 src/count/CountingResult.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 6d8664a..654daa1 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -1,4 +1,5 @@
 #include <CountingResult.h>
+#include <Exceptions.h>
 #include <Formatter.hpp>
 #include <Comparison.hpp>
 #include <utility>
@@ -95,6 +96,8 @@ void CountingResult::SaveAs(const std::string &fileName_)
     struct tm *now = localtime(&t);
 
     std::ofstream fs(fileName_.c_str());
+    if (!fs.is_open())
+        throw IOError("CountingResult::SaveAs - couldn't open file " + fileName_);
     fs << "-----------------------------------"
        << "-----------------------------------" << std::endl
        << "OXSX Counting Result: "
-- 
2.43.0


From 39d4a8a613a0d1064b08dc73c202f85f9c86ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 117/132] fix: BayesIntervalCalc::UpperBound interpolates in
 the bin that holds the requested level

---
 src/interval/BayesIntervalCalc.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index a2b167d..78e14e5 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -16,6 +16,10 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
         throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
                                      << " , must be >0!");
 
+    if (!(cl_ <= 1))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
+                                     << " , can't be more than 1!");
+
     // only works for 1D histograms currently
     if (posterior_.GetNDims() != 1)
         throw DimensionError("BayesIntervalCal", 1, posterior_.GetNDims(),
@@ -26,16 +30,19 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     // Integrate from the minimum to x until the total probability exceeds cl_
     // find the first bin <b> for which the integral  <0>-><b> > cl
     size_t critBin = 0;
-    double sum = 0;
-    while (sum < cl_)
+    double sum = posterior_.GetBinContent(0);
+    while (sum < cl_ && critBin + 1 < posterior_.GetNBins())
     {
-        sum = 0;
-        for (size_t i = 0; i < critBin; i++)
-        {
-            sum += posterior_.GetBinContent(i);
-        }
-
         critBin++;
+        sum += posterior_.GetBinContent(critBin);
+    }
+
+    // a rounding error short of everything: up to the last bin with anything in it
+    if (sum < cl_)
+    {
+        while (critBin > 0 && !posterior_.GetBinContent(critBin))
+            critBin--;
+        return posterior_.GetAxes().GetBinHighEdge(critBin, 0);
     }
 
     // now interpolate between the bins
-- 
2.43.0


From e3ef7b9676d8f7eb43442baf987835efc37e9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 118/132] fix: BayesIntervalCalc::OneSidedUpperInterval keeps
 its precision and refuses negative counts

---
 src/interval/BayesIntervalCalc.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index 78e14e5..0a56e59 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -56,7 +56,18 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
 double
 BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCounts_, double upperEdge_)
 {
-    return (gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_ + upperEdge_) - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_)) / (1 - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_));
+    if (!(expectedCounts_ >= 0) || observedCounts_ < 0 || !(upperEdge_ >= 0))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: expected counts " << expectedCounts_
+                                     << ", observed counts " << observedCounts_
+                                     << " and edge " << upperEdge_ << " can't be negative!");
+
+    // the complement, 1 - P loses everything for expected >> observed
+    const double norm = gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_);
+    if (!(norm > 0))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: can't evaluate the posterior for " << observedCounts_
+                                     << " observed, " << expectedCounts_ << " expected!");
+
+    return (norm - gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_ + upperEdge_)) / norm;
 }
 
 double
-- 
2.43.0


From 1d7a648b1835db2cd0f5efd0f26ef2eceacd154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 119/132] fix: BayesIntervalCalc::UpperBound refuses impossible
 levels and tolerances

---
 src/interval/BayesIntervalCalc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index 0a56e59..12d8a99 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -73,8 +73,14 @@ BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCou
 double
 BayesIntervalCalc::UpperBound(double expectedCounts_, int observedCounts_, double cl_, double tolerance_)
 {
-    double currentCL = 0;
+    if (!(cl_ > 0 && cl_ <= 1))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
+                                     << " , must be >0 and can't be more than 1!");
+    if (!(tolerance_ > 0))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: tolerance = " << tolerance_ << " , must be >0!");
+
     double limit = 0;
+    double currentCL = OneSidedUpperInterval(expectedCounts_, observedCounts_, limit);
     while (std::abs(currentCL - cl_) > tolerance_)
     {
         limit += tolerance_;
-- 
2.43.0


From 4b478398499c21b45c49f4ecefa0b65c5a7d476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 120/132] fix: JumpPDF refuses points of different dimensions

---
 src/function/JumpPDF.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index f64733d..51137b1 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -52,6 +52,9 @@ std::vector<double>
 JumpPDF::Diff(const std::vector<double> &x_,
               const std::vector<double> &x2_) const
 {
+  if (x_.size() != x2_.size())
+    throw DimensionError("JumpPDF::Diff", x_.size(), x2_.size(), "points have different dimensions");
+
   std::vector<double> diff = x_;
   std::transform(diff.begin(), diff.end(), x2_.begin(),
                  diff.begin(), std::minus<double>());
@@ -62,6 +65,9 @@ std::vector<double>
 JumpPDF::Sum(const std::vector<double> &x_,
              const std::vector<double> &x2_) const
 {
+  if (x_.size() != x2_.size())
+    throw DimensionError("JumpPDF::Sum", x_.size(), x2_.size(), "points have different dimensions");
+
   std::vector<double> sum = x_;
   std::transform(sum.begin(), sum.end(), x2_.begin(),
                  sum.begin(), std::plus<double>());
-- 
2.43.0


From d04cd911adfe69f5847c7d1af8cff4c53a41c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 121/132] fix: BinnedED projections and slices keep the
 observables of their axes

---
 src/dist/BinnedED.cpp | 20 +++++++++++++++-----
 src/dist/BinnedED.h   |  2 ++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/dist/BinnedED.cpp b/src/dist/BinnedED.cpp
index 4dd0771..15c1750 100644
--- a/src/dist/BinnedED.cpp
+++ b/src/dist/BinnedED.cpp
@@ -214,12 +214,22 @@ BinnedED::Variances() const
     return fHistogram.Variances();
 }
 
+std::vector<std::string>
+BinnedED::ObservablesOf(const std::vector<std::string> &axisNames_) const
+{
+    // the observables binned along these axes: unless they've been set they're called after the axes
+    if (fObservables.GetNObservables() != GetNDims())
+        return axisNames_;
+
+    std::vector<std::string> observables;
+    for (size_t i = 0; i < axisNames_.size(); i++)
+        observables.push_back(fObservables.GetNames().at(fHistogram.GetAxes().GetAxisIndex(axisNames_.at(i))));
+    return observables;
+}
+
 BinnedED
 BinnedED::Marginalise(const std::vector<std::string> &names_) const
 {
-    // Find the relative indicies indicies in
-    ObsSet newRep = ObsSet(names_);
-
     // create a name for the projection
     Formatter f;
     f << fName;
@@ -229,7 +239,7 @@ BinnedED::Marginalise(const std::vector<std::string> &names_) const
 
     // Marginalise the histogram
     BinnedED proj(std::string(f), fHistogram.Marginalise(names_));
-    proj.SetObservables(names_);
+    proj.SetObservables(ObservablesOf(names_));
     return proj;
 }
 
@@ -265,7 +275,7 @@ BinnedED::GetSlice(const std::map<std::string, size_t> &namesAndBins_) const
 
     // slice the histogram
     BinnedED slice(std::string(f), fHistogram.GetSlice(namesAndBins_));
-    slice.SetObservables(newObsNames);
+    slice.SetObservables(ObservablesOf(newObsNames));
     return slice;
 }
 
diff --git a/src/dist/BinnedED.h b/src/dist/BinnedED.h
index cefa4b7..6a749ca 100644
--- a/src/dist/BinnedED.h
+++ b/src/dist/BinnedED.h
@@ -77,6 +77,8 @@ public:
    void AddPadding(double padding_ = std::numeric_limits<double>::min());
 
 protected:
+   std::vector<std::string> ObservablesOf(const std::vector<std::string> &axisNames_) const;
+
    ObsSet fObservables;
    Histogram fHistogram;
    std::string fName;
-- 
2.43.0


From f2cd0006b9be02ed769eb161646fc631012545ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 122/132] fix: keep variable bin widths when converting from
 ROOT histograms

---
 src/dist/DistTools.cpp | 59 ++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/dist/DistTools.cpp b/src/dist/DistTools.cpp
index 58dd50e..c86c407 100644
--- a/src/dist/DistTools.cpp
+++ b/src/dist/DistTools.cpp
@@ -4,6 +4,7 @@
 #include <Exceptions.h>
 #include <Histogram.h>
 #include <BinnedED.h>
+#include <TAxis.h>
 #include <TH1D.h>
 #include <TH2D.h>
 #include <TH3D.h>
@@ -11,6 +12,22 @@
 #include <iostream>
 #include <algorithm>
 
+namespace
+{
+// An axis with the same bin edges, whether or not the bins have equal widths
+BinAxis ToAxis(const TAxis &axis_, const int nBins_)
+{
+    std::vector<double> lowEdges(nBins_);
+    std::vector<double> highEdges(nBins_);
+    for (int i = 0; i < nBins_; i++)
+    {
+        lowEdges[i] = axis_.GetBinLowEdge(i + 1);
+        highEdges[i] = axis_.GetBinUpEdge(i + 1);
+    }
+    return BinAxis(axis_.GetTitle(), lowEdges, highEdges);
+}
+}
+
 Histogram
 DistTools::ToHist(const PDF &analytic_, const AxisCollection &axes_)
 {
@@ -175,12 +192,7 @@ Histogram
 DistTools::ToHist(const TH1D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
+    axes.AddAxis(ToAxis(*h_.GetXaxis(), h_.GetNbinsX()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -195,19 +207,9 @@ Histogram
 DistTools::ToHist(const TH2D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
+    axes.AddAxis(ToAxis(*h_.GetXaxis(), h_.GetNbinsX()));
 
-    );
+    axes.AddAxis(ToAxis(*h_.GetYaxis(), h_.GetNbinsY()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -229,26 +231,11 @@ Histogram
 DistTools::ToHist(const TH3D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToAxis(*h_.GetXaxis(), h_.GetNbinsX()));
 
-    axes.AddAxis(BinAxis(h_.GetZaxis()->GetTitle(),
-                         h_.GetZaxis()->GetBinLowEdge(1),
-                         h_.GetZaxis()->GetBinUpEdge(h_.GetNbinsZ()),
-                         h_.GetNbinsZ())
+    axes.AddAxis(ToAxis(*h_.GetYaxis(), h_.GetNbinsY()));
 
-    );
+    axes.AddAxis(ToAxis(*h_.GetZaxis(), h_.GetNbinsZ()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
-- 
2.43.0


From c50323507365300aa22918395c2d8ad0fc63119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 123/132] fix: leave Minuit parameters without limits unlimited

---
 src/optimise/Minuit.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index ec22c18..bcc7a80 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -122,7 +122,10 @@ void Minuit::Initialise(TestStatistic *testStat_)
         for (std::set<std::string>::iterator it = fParameterNames.begin();
              it != fParameterNames.end(); ++it)
         {
-            params.SetLimits(i++, fMinima[*it], fMaxima[*it]);
+            ParameterDict::const_iterator min = fMinima.find(*it);
+            if (min != fMinima.end())
+                params.SetLimits(i, min->second, fMaxima.at(*it));
+            i++;
         }
     }
 
-- 
2.43.0


From 66c71bb9b484c5a0418b2f8acde9c60cc84ec453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 124/132] fix: keep the upper contour edge through Minuit fits

---
 src/optimise/Minuit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index bcc7a80..a2117b4 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -107,7 +107,9 @@ void Minuit::Initialise(TestStatistic *testStat_)
     fParameterNames = GetKeys(fInitialErrors);
 
     // pass this ordering on to the called function so it knows the right order too
+    double upperContourEdge = fMinuitFCN.GetUp();
     fMinuitFCN = MinuitFCN(testStat_, fParameterNames);
+    fMinuitFCN.SetUp(upperContourEdge);
 
     // max or min?
     if (fMaximising)
-- 
2.43.0


From 465fcae84be216c4c46f696b976f5acf6d14c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 125/132] fix: don't set the parameters of earlier Minuit fits

---
 src/optimise/MinuitFCN.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MinuitFCN.cpp b/src/optimise/MinuitFCN.cpp
index a3759c3..08a92ce 100644
--- a/src/optimise/MinuitFCN.cpp
+++ b/src/optimise/MinuitFCN.cpp
@@ -25,7 +25,8 @@ MinuitFCN::operator=(const MinuitFCN &other_)
     fFlipSign = other_.fFlipSign;
     fParameterNames = other_.fParameterNames;
 
-    // don't bother copying fSetParameters
+    // don't bother copying fSetParameters, but don't keep parameters of the last fit either
+    fSetParameters.clear();
     return *this;
 }
 
-- 
2.43.0


From 89b3b0864802ba67f4881fd2a0d7d79483c35e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 126/132] fix: don't delete the minimiser of a copied Minuit
 twice

---
 src/optimise/Minuit.cpp | 10 ++++------
 src/optimise/Minuit.h   |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index a2117b4..be01c5d 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -23,7 +23,6 @@ using ROOT::Minuit2::MnUserParameters;
 
 Minuit::~Minuit()
 {
-    delete fMinimiser;
 }
 
 void Minuit::SetMethod(const std::string &method_)
@@ -70,8 +69,7 @@ Minuit::GetMinima() const { return fMinima; }
 
 void Minuit::Initialise(TestStatistic *testStat_)
 {
-    delete fMinimiser;
-    fMinimiser = NULL;
+    fMinimiser.reset();
 
     // check everything makes sense
     if (!HasSameKeys(fMinima, fMaxima))
@@ -134,13 +132,13 @@ void Minuit::Initialise(TestStatistic *testStat_)
     ROOT::Minuit2::MnStrategy strategy(fStrategy);
 
     if ("Migrad" == fMethod)
-        fMinimiser = new MnMigrad(fMinuitFCN, params, strategy);
+        fMinimiser.reset(new MnMigrad(fMinuitFCN, params, strategy));
 
     else if ("Minimize" == fMethod)
-        fMinimiser = new MnMinimize(fMinuitFCN, params, strategy);
+        fMinimiser.reset(new MnMinimize(fMinuitFCN, params, strategy));
 
     else if ("Simplex" == fMethod)
-        fMinimiser = new MnSimplex(fMinuitFCN, params, strategy);
+        fMinimiser.reset(new MnSimplex(fMinuitFCN, params, strategy));
     else
         throw ValueError(Formatter() << "Minuit::Unrecognised method - "
                                      << fMethod);
diff --git a/src/optimise/Minuit.h b/src/optimise/Minuit.h
index d406361..588215d 100644
--- a/src/optimise/Minuit.h
+++ b/src/optimise/Minuit.h
@@ -12,6 +12,7 @@
 #include <Minuit2/FunctionMinimum.h>
 #include <FitResult.h>
 #include <DenseMatrix.h>
+#include <memory>
 #include <set>
 
 class TestStatistic;
@@ -23,7 +24,6 @@ public:
               fTolerance(0.1),
               fStrategy(2),
               fMethod("Migrad"),
-              fMinimiser(NULL),
               fMaximising(false) {}
    ~Minuit();
 
@@ -76,7 +76,7 @@ private:
    int fStrategy;
 
    std::string fMethod;
-   ROOT::Minuit2::MnApplication *fMinimiser;
+   std::shared_ptr<ROOT::Minuit2::MnApplication> fMinimiser; // made afresh for every fit
 
    std::set<std::string> fParameterNames;
    // the order they are held in vectors for ROOT
-- 
2.43.0


From a2a9b8a9ac094c33bf4b342ce2b42072a78804a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 127/132] fix: add all of the axes or none of them

---
 src/histogram/AxisCollection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index f0665e1..dc71626 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -83,8 +83,11 @@ void AxisCollection::AddAxis(const BinAxis &axis_)
 
 void AxisCollection::AddAxes(const std::vector<BinAxis> &axes_)
 {
+    // all or none: one of them may be refused
+    AxisCollection newAxes(*this);
     for (size_t i = 0; i < axes_.size(); i++)
-        AddAxis(axes_[i]);
+        newAxes.AddAxis(axes_[i]);
+    *this = newAxes;
 }
 
 size_t
-- 
2.43.0


From 2322164d7d92c006ce2760f179c16ddac1167df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 128/132] fix: EDManager adds all of the distributions or none
 of them

---
 src/fitutil/EDManager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 7556a9a..f2dc795 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -52,6 +52,15 @@ void EDManager::AddDist(EventDistribution *pdf_)
 
 void EDManager::AddDists(const std::vector<EventDistribution *> &pdfs_)
 {
+    // all or none: check the dimensions of all of them before adding any
+    for (size_t i = 0; i < pdfs_.size(); i++)
+    {
+        const size_t nDims = fDists.size() ? fNDims : pdfs_.at(0)->GetNDims();
+        if (pdfs_.at(i)->GetNDims() != nDims)
+            throw DimensionError("EDManager::AddDists", nDims, pdfs_.at(i)->GetNDims(),
+                                 " dimensions in added pdf");
+    }
+
     for (size_t i = 0; i < pdfs_.size(); i++)
         AddDist(pdfs_.at(i));
     RegisterParameters();
-- 
2.43.0


From 43dbbb5caf11af8a814ac46ae45a8f4e13ebad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 129/132] fix: BinnedNLLH adds no pdf whose systematic groups
 are refused

---
 src/fitutil/SystematicManager.h | 4 +++-
 src/teststat/BinnedNLLH.cpp     | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 0c54ed9..8872b92 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -51,6 +51,9 @@ public:
    void AddDist(const BinnedED &pdf, const std::vector<std::string> &syss_);
    void AddDist(const BinnedED &pdf, const std::string &syss_);
 
+   // throws if these groups can't be applied together to a distribution
+   void UniqueSystematics(const std::vector<std::string> &);
+
    const SparseMatrix &GetTotalResponse(const std::string &groupName_ = "") const;
 
    void DistortEDs(const std::vector<BinnedED> &OrigEDs,
@@ -65,7 +68,6 @@ private:
    std::map<std::string, std::vector<Systematic *>> fGroups;
 
    std::map<std::string, std::vector<std::string>> fEDGroups;
-   void UniqueSystematics(const std::vector<std::string> &);
    void checkAllOtherGroups(const Systematic *syss_);
    size_t CountNSystematics() const;
 };
diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index c91bf34..c1a5685 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -162,6 +162,8 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
     {
         throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
     }
+    for (size_t i = 0; i < sys_.size(); ++i) // before any of the pdfs is added
+        GetSystematicManager().UniqueSystematics(sys_.at(i));
     for (size_t i = 0; i < pdfs.size(); ++i)
     {
         if (norm_fitting_statuses == nullptr)
@@ -232,6 +234,8 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
         throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
     if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
         throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
+    for (size_t i = 0; i < sys_.size(); ++i) // before any of the pdfs is added
+        GetSystematicManager().UniqueSystematics(sys_.at(i));
     for (size_t i = 0; i < pdfs.size(); i++)
     {
         if (norm_fitting_statuses != nullptr)
@@ -251,8 +255,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 {
     if (fUseBarlowBeeston)
         throw OXSXException(Formatter() << "BinnedNLLH:: Must set generated rates if using Barlow-Beeston");
+    GetSystematicManager().AddDist(pdf_, syss_); // refuses groups it doesn't know
     fPdfManager.AddPdf(pdf_, norm_fitting_status);
-    GetSystematicManager().AddDist(pdf_, syss_);
 }
 
 void BinnedNLLH::AddPdf(const BinnedED &pdf_,
@@ -278,8 +282,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
                         const int &genrate_,
                         const NormFittingStatus norm_fitting_status)
 {
+    GetSystematicManager().AddDist(pdf_, syss_); // refuses groups it doesn't know
     fPdfManager.AddPdf(pdf_, norm_fitting_status);
-    GetSystematicManager().AddDist(pdf_, syss_);
     fGenRates.push_back(genrate_);
 }
 
-- 
2.43.0


From 0703b6c61b2b5ded553e10163c9a757c6ba5b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 130/132] fix: initialise the data set of a chi square

---
 src/teststat/ChiSquare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/teststat/ChiSquare.h b/src/teststat/ChiSquare.h
index 706b69c..9bf511a 100644
--- a/src/teststat/ChiSquare.h
+++ b/src/teststat/ChiSquare.h
@@ -14,7 +14,7 @@ class DataSet;
 class ChiSquare : public TestStatistic
 {
 public:
-   ChiSquare() : fCalculatedDataDist(false) {}
+   ChiSquare() : fDataSet(nullptr), fCalculatedDataDist(false) {}
 
    void SetDataSet(DataSet *d);
    DataSet *GetDataSet();
-- 
2.43.0


From 4a14ff2ff5db7c60c1ba9c7ff69f81377367dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:38 +0000
Subject: [PATCH 131/132] fix: a global systematic is only refused if it is
 itself in another group

---
 src/fitutil/SystematicManager.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 279ecea..02e1770 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -74,13 +74,10 @@ void SystematicManager::Add(Systematic *sys_)
 
 void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
 {
-    std::set<std::string> allname;
-    allname.insert(syss_->GetName());
+    // The systematics of two named groups may be the same as each other, just not the same as the new one
     for (size_t j = 0; j < fGroups.at("").size(); ++j)
     {
-        if (allname.find(fGroups.at("").at(j)->GetName()) == allname.end())
-            allname.insert(fGroups.at("").at(j)->GetName());
-        else
+        if (fGroups.at("").at(j)->GetName() == syss_->GetName())
             throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << fGroups.at("").at(j)->GetName() << " is in the global systematic group more than once.");
     }
     for (std::map<std::string, std::vector<Systematic *>>::const_iterator i = fGroups.begin(); i != fGroups.end(); ++i)
@@ -89,11 +86,7 @@ void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
             continue;
         for (std::vector<Systematic *>::const_iterator sys = i->second.begin(); sys != i->second.end(); ++sys)
         {
-            if (allname.find((*sys)->GetName()) == allname.end())
-            {
-                allname.insert((*sys)->GetName());
-            }
-            else
+            if ((*sys)->GetName() == syss_->GetName())
                 throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << (*sys)->GetName() << " is in the another group and therefore can't be added to the global systematics.");
         }
     }
-- 
2.43.0


From 556aca6c23ae919173a7b204b80670952d1d5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 132/132] fix: a grid search isn't stuck on a first point
 without a value

---
 src/optimise/GridSearch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index 3c9b4f6..e899779 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -2,6 +2,7 @@
 #include <TestStatistic.h>
 #include <iostream>
 #include <sstream>
+#include <cmath>
 #include <Histogram.h>
 #include <FitResult.h>
 #include <Exceptions.h>
@@ -126,7 +127,8 @@ GridSearch::Optimise(TestStatistic *testStat_)
         if (fMaximising)
             currentVal *= -1;
 
-        if (currentVal < fMinVal || bestFit.empty())
+        // anything is better than no value at all
+        if (currentVal < fMinVal || bestFit.empty() || (std::isnan(fMinVal) && !std::isnan(currentVal)))
         {
             fMinVal = currentVal;
             bestFit = fParamVals;
-- 
2.43.0

