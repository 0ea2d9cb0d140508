From 2128bebf5c33e0193ea922de51274214976e6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 01/23] fix: normalize looks at every value when the item
 length is odd and the item count even

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d883352..05d9821 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -227,7 +227,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     data_t x, y, z;
 
     // start at 0 if even, 1 if odd
-    if ((i = (length % 2 != 0)))
+    if ((i = (this->itemLength % 2 != 0)))
     {
       if (data[ts * this->itemLength] < MIN)
       {
-- 
2.43.0


From c3594175f9bcd3724876835b20abfa1bf0cb98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 02/23] fix: grouping a dataset with fewer than 5 subsequences
 of a length no longer divides by zero

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 08949c2..98fc045 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -64,7 +64,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(1, totalTimeSeries / LOG_FREQ) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 7bb59a1d5f69158c426d8bb0ea9064107cae4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 03/23] fix: matching a query longer than the target's time
 series, or that nothing can be matched with, no longer crashes

---
 src/GlobalGroupSpace.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5ca33e6..a47f198 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -76,6 +76,9 @@ candidate_time_series_t GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       bestSoFarDist = candidate.second;
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw OnexException("No time series can be matched with the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -120,7 +123,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -129,7 +134,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From 7b50f664444aa92d5f9f02eeac8252941dfc5da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 04/23] fix: loading does not clear past the end of the data
 when built with SINGLE_PRECISION

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 05d9821..e2b0634 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -110,7 +110,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
         this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
+        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
-- 
2.43.0


From bcd7b92c8bb1d7b66822319a8b2c640792ff4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 05/23] fix: loading rejects files without data and starting
 columns out of range instead of creating a dataset of negative length

---
 src/TimeSeriesSet.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index e2b0634..f9b8751 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -83,6 +83,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException(string("Cannot open ") + filePath);
   }
 
+  if (startCol < 0)
+  {
+    f.close();
+    throw OnexException("Starting column must not be negative");
+  }
+
   if (maxNumRow <= 0) {
     maxNumRow = countNumberOfLines(f);
   }
@@ -109,6 +115,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
       {
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
+        if (length <= startCol)
+        {
+          f.close();
+          this->clearData();
+          throw OnexException("File contains no data after the starting column");
+        }
         this->data = new data_t[maxNumRow * length];
         memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
@@ -158,6 +170,13 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("Error while reading file");
   }
 
+  if (this->itemCount == 0)
+  {
+    f.close();
+    this->clearData();
+    throw OnexException("File contains no data");
+  }
+
   this->itemLength = length - startCol;
   this->filePath = filePath;
 
-- 
2.43.0


From 2125955fe6f5f392ed5389bfd19669eea41e70e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 06/23] fix: a set that is loaded again does not stay marked as
 normalized

---
 src/TimeSeriesSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index f9b8751..664b24f 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -206,6 +206,7 @@ void TimeSeriesSet::clearData()
   this->data = nullptr;
   this->itemCount = 0;
   this->itemLength = 0;
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From ce6b9befad8be9a852768d0ba28cd19bbfa27e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 07/23] fix: PAA of a set without data is an error like
 normalize, and releases the old data as an array

---
 src/TimeSeriesSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 664b24f..44418cd 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -317,6 +317,9 @@ void TimeSeriesSet::PAA(int n)
   if (n <= 0) {
     throw OnexException("Block size must be positive");
   }
+  if (!this->isLoaded()) {
+    throw OnexException("No data to perform PAA on");
+  }
   int newItemLength = calcPAALength(this->itemLength, n);
   data_t* new_data = new data_t[this->itemCount * newItemLength];
   for (int ts = 0; ts < this->itemCount; ts++)
@@ -324,7 +327,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
-  delete this->data;
+  delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
 }
-- 
2.43.0


From e5077dabbce45f0de74602c167a86dce6a9408d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 08/23] fix: groups do not outlive the data they were made from
 (normalize, PAA, load and clear left them dangling or stale)

---
 src/GroupableTimeSeriesSet.hpp | 6 ++++++
 src/TimeSeriesSet.cpp          | 3 +++
 src/TimeSeriesSet.hpp          | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.hpp b/src/GroupableTimeSeriesSet.hpp
index e7d48c8..5acf8d4 100644
--- a/src/GroupableTimeSeriesSet.hpp
+++ b/src/GroupableTimeSeriesSet.hpp
@@ -57,6 +57,12 @@ public:
    */
   candidate_time_series_t getBestMatch(const TimeSeries& other) const;
 
+protected:
+  /**
+   *  @brief groups refer to the data they were made from, so they are dropped with it
+   */
+  void dataWillChange() { this->reset(); }
+
 private:
   GlobalGroupSpace* groupsAllLengthSet = nullptr;
   data_t threshold;
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 44418cd..05cd25a 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -202,6 +202,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
 
 void TimeSeriesSet::clearData()
 {
+  this->dataWillChange();
   delete[] this->data;
   this->data = nullptr;
   this->itemCount = 0;
@@ -234,6 +235,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
   {
     throw OnexException("No data to normalize");
   }
+  this->dataWillChange();
 
   // auto minAndMax = std::minmax(this->data);
   // data_t diff = *minAndMax.first - *minAndMax.second;
@@ -320,6 +322,7 @@ void TimeSeriesSet::PAA(int n)
   if (!this->isLoaded()) {
     throw OnexException("No data to perform PAA on");
   }
+  this->dataWillChange();
   int newItemLength = calcPAALength(this->itemLength, n);
   data_t* new_data = new data_t[this->itemCount * newItemLength];
   for (int ts = 0; ts < this->itemCount; ts++)
diff --git a/src/TimeSeriesSet.hpp b/src/TimeSeriesSet.hpp
index c0622e6..09aa843 100644
--- a/src/TimeSeriesSet.hpp
+++ b/src/TimeSeriesSet.hpp
@@ -138,6 +138,12 @@ public:
   bool isLoaded(void);
 
 protected:
+  /**
+   *  @brief called before the data is modified or released, so that derived classes
+   *         can drop what they computed from it
+   */
+  virtual void dataWillChange() {}
+
   data_t* data = nullptr;
   int itemLength;
   int itemCount;
-- 
2.43.0


From a5f6fd67525f1b77a4ddb2831d022dcd0ffcaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 09/23] fix: a grouping that fails keeps the previous groups
 and does not leave the dataset marked as grouped

---
 src/GroupableTimeSeriesSet.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96df068..5aab075 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -3,6 +3,7 @@
 #include "Exception.hpp"
 #include "distance/Distance.hpp"
 #include <iostream>
+#include <memory>
 
 #include <fstream>
 
@@ -25,11 +26,12 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
     throw OnexException("No data to group");
   }
 
-  // clear old groups
-  reset();
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+  int cntGroups = newGroups->group(distance_name, threshold);
 
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-  int cntGroups = this->groupsAllLengthSet->group(distance_name, threshold);
+  // replace old groups
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   this->threshold = threshold;
   return cntGroups;
 }
-- 
2.43.0


From a9013e69e11f3dfc3d8f4aee7a9463851a7e8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 10/23] fix: malformed group files are rejected and keep the
 previous groups instead of reading or writing out of bounds

---
 src/GlobalGroupSpace.cpp       |  9 +++++----
 src/Group.cpp                  | 15 ++++++++++++---
 src/Group.hpp                  | 12 +++++++++++-
 src/GroupableTimeSeriesSet.cpp | 10 +++++++---
 src/LocalLengthGroupSpace.cpp  | 15 ++++++++++++---
 5 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index a47f198..dcc0160 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -104,14 +104,15 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int lenFrom, lenTo;
   int numberOfGroups = 0;
   string distance;
-  fin >> lenFrom >> lenTo >> distance;
+  if (!(fin >> lenFrom >> lenTo >> distance) || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
+    throw OnexException("Malformed group file");
+  }
   boost::trim_right(distance);
   this->loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getItemLength() + 1, nullptr);  
   for (unsigned int i = lenFrom; i < lenTo; i++) {
-    LocalLengthGroupSpace* gel = new LocalLengthGroupSpace(dataset, i);
-    numberOfGroups += gel->loadGroups(fin);
-    this->localLengthGroupSpace[i] = gel;
+    this->localLengthGroupSpace[i] = new LocalLengthGroupSpace(dataset, i);
+    numberOfGroups += this->localLengthGroupSpace[i]->loadGroups(fin);
   }
   return numberOfGroups;
 }
diff --git a/src/Group.cpp b/src/Group.cpp
index 57df2fe..f1cd948 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <algorithm>
 
+#include "Exception.hpp"
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
 
@@ -100,7 +101,7 @@ void Group::saveGroup(ofstream &fout) const
   fout << endl;
 }
 
-void Group::loadGroup(ifstream &fin)
+void Group::loadGroup(ifstream &fin, vector<bool> &isMember)
 {
   int cnt;
   this->centroid = TimeSeries(this->memberLength);
@@ -109,10 +110,18 @@ void Group::loadGroup(ifstream &fin)
     fin >> this->centroid[i];
   }
 
-  fin >> cnt; 
+  if (!(fin >> cnt) || cnt < 1) {
+    throw OnexException("Malformed group file");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    if (!(fin >> index >> start)
+        || index < 0 || index >= this->dataset.getItemCount()
+        || start < 0 || start >= this->subTimeSeriesCount
+        || isMember[index * this->subTimeSeriesCount + start]) {
+      throw OnexException("Malformed group file");
+    }
+    isMember[index * this->subTimeSeriesCount + start] = true;
     this->addMember(index, start);
   }
 }
diff --git a/src/Group.hpp b/src/Group.hpp
index d922a65..bf738b4 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -141,7 +141,17 @@ public:
   std::vector<TimeSeries> getMembers() const;
 
   void saveGroup(std::ofstream &fout) const;
-  void loadGroup(std::ifstream &fin);
+
+  /**
+   *  @brief loads a group saved by saveGroup
+   *
+   *  @param fin the file to read from
+   *  @param isMember tells which time series are already in a group, updated with the
+   *         members of this one
+   *
+   *  @throw OnexException if the file is malformed
+   */
+  void loadGroup(std::ifstream &fin, std::vector<bool> &isMember);
 
 private:
   const TimeSeriesSet& dataset;
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 5aab075..e5cdcf0 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -77,7 +77,10 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    {
+      throw OnexException("Malformed group file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
@@ -91,10 +94,11 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
       throw OnexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroups(fin);
     reset();
+    this->groupsAllLengthSet = newGroups.release();
     this->threshold = threshold;
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroups(fin);
   }
   else
   {
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 98fc045..f1b8560 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -138,12 +138,21 @@ int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
-  for (unsigned int i = 0; i < numberOfGroups; i++)
+  if (!(fin >> numberOfGroups)) {
+    throw OnexException("Malformed group file");
+  }
+  // Every time series of this length must be in exactly one group
+  std::vector<bool> isMember(this->memberMap.size(), false);
+  int numberOfMembers = 0;
+  for (int i = 0; i < numberOfGroups; i++)
   {
     Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    grp->loadGroup(fin);
     this->groups.push_back(grp);
+    grp->loadGroup(fin, isMember);
+    numberOfMembers += grp->getCount();
+  }
+  if (numberOfMembers != isMember.size()) {
+    throw OnexException("Malformed group file");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From 7e7e65f9aea9de39360079f879a2822e8282bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 11/23] fix: saved datasets and groups keep all digits, so that
 loading them gives the same values

---
 src/GroupableTimeSeriesSet.cpp | 3 +++
 src/TimeSeries.cpp             | 2 +-
 src/TimeSeriesSet.cpp          | 4 ++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index e5cdcf0..4128709 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -2,7 +2,9 @@
 #include "GlobalGroupSpace.hpp"
 #include "Exception.hpp"
 #include "distance/Distance.hpp"
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <memory>
 
 #include <fstream>
@@ -58,6 +60,7 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
   {
     // Version of the file format, the threshold and the required dataset dimensions
     fout << GROUP_FILE_VERSION << " " 
+         << std::setprecision(std::numeric_limits<data_t>::max_digits10)
          << this->threshold << " "
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 707dda2..08f458a 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -133,7 +133,7 @@ string TimeSeries::getIdentifierString() const
 void TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
 }
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 05cd25a..63c46e0 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -3,7 +3,9 @@
 #include <algorithm>
 #include <string>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -191,6 +193,8 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw OnexException(string("Cannot open ") + filePath);
   }
+  // Enough digits to get exactly the same values when loaded again
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     for (int j = 0; j < itemLength; j++) {
       f << data[i * itemLength + j] << separator;
-- 
2.43.0


From dc55fed0da81517aecd43c4d4957257071e1e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 12/23] fix: saving reports write errors (such as a full disk)
 instead of succeeding with an incomplete file

---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 src/TimeSeriesSet.cpp          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 4128709..c55cc83 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -65,6 +65,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
     this->groupsAllLengthSet->saveGroups(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw OnexException("Error while writing file");
+    }
   }
   else
   {
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 63c46e0..1c7bfb5 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -202,6 +202,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << std::endl;
   }
   f.close();
+  if (!f)
+  {
+    throw OnexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 0567ee5f37ea0d27ad2c36705a57555ec93f01f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 13/23] fix: assigning a time series drops its cached envelope,
 releases what it owned, and survives self-assignment

---
 src/TimeSeries.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 08f458a..5aa395f 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -14,9 +14,13 @@ namespace onex {
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     delete[] this->data;
   }
+  keoghCacheValid = false;
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
   start = other.start;
@@ -35,6 +39,13 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  if (isOwnerOfData) {
+    delete[] this->data;
+  }
+  keoghCacheValid = false;
   data = other.data;
   index = other.index;
   start = other.start;
@@ -50,7 +61,7 @@ TimeSeries::~TimeSeries()
   // if object allocated the data, delete it
   if (this->isOwnerOfData)
   {
-    delete this->data;
+    delete[] this->data;
     this->data = nullptr;
   }
   delete[] keoghLower;
-- 
2.43.0


From 862ac535fa43adb369747639d5e4fb6bc546fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 14/23] fix: candidates are ordered by distance (the integer
 abs made distances less than 1 apart equal)

---
 src/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 0a20713..3ec8b97 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -203,7 +203,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (abs(dist - rhs.dist) < EPS)
+    if (std::abs(dist - rhs.dist) < EPS)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 509239bb49cc1ae807102feeb732f0cf2830c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 15/23] fix: match with a start but no end is an error instead
 of reading past the arguments

---
 cli/OnexCLI.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index f46b7dc..c7e4aab 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -369,7 +369,8 @@ MAKE_COMMAND(PAA,
 
 MAKE_COMMAND(Match,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
+    // <start> and <end> go together
+    if (tooFewArgs(args, args.size() == 5 ? 6 : 4) || tooManyArgs(args, 6))
     {
       return false;
     }
-- 
2.43.0


From e57e8ecc0b5174b6c8375121f9db9a84803092a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 16/23] fix: the warping band also holds when one of the time
 series has a single point

---
 src/distance/Distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 088f842..0e92d67 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -75,13 +75,13 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
   cost[0][0] = _euc(a[0], b[0]);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = cost[i-1][0] + _euc(a[i], b[0]);
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = cost[0][j-1] + _euc(a[0], b[j]);
   }
-- 
2.43.0


From 6002c2eca60ef9a96ff564716f184ce730bdc348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 17/23] fix: a negative warping band ratio is rejected and a
 huge one does not overflow the band size

---
 src/distance/Distance.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 0e92d67..9d228bf 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -126,13 +126,16 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
+  if (!(ratio >= 0)) {
+    throw OnexException("Warping band ratio must not be negative");
+  }
   warpingBandRatio = ratio;
 }
 
 int calculateWarpingBandSize(int length)
 {
-  int bandSize = floor(length * warpingBandRatio);
-  return std::min(bandSize, length - 1);
+  double bandSize = floor(length * warpingBandRatio);
+  return std::min(bandSize, length - 1.0);
 }
 
 data_t kimLowerBound(const TimeSeries& a, const TimeSeries& b, data_t dropout)
-- 
2.43.0


From 944bbbceacff4e6bca39192633051e171dbae4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:03 +0000
Subject: [PATCH 18/23] fix: loading rejects tokens that only start with a
 number instead of dropping their rest

---
 src/TimeSeriesSet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 1c7bfb5..33f1381 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -143,7 +143,13 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         {
           try
           {
-            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter);
+            std::size_t parsed;
+            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter, &parsed);
+            // A number followed by something else is not a number
+            if (tok_iter->find_first_not_of(" \t\r", parsed) != string::npos)
+            {
+              throw std::invalid_argument(*tok_iter);
+            }
           }
           catch (const std::invalid_argument& e)
           {
-- 
2.43.0


From 41794623e55e22e54131f0e30891edd59bf3e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 19/23] fix: unload with more arguments than its one is an
 error, as for every other command

---
 cli/OnexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index c7e4aab..fa9a449 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -141,7 +141,7 @@ MAKE_COMMAND(SaveDataset,
 
 MAKE_COMMAND(UnloadDataset,
   {
-    if (tooFewArgs(args, 2) || tooManyArgs(args, 5))
+    if (tooFewArgs(args, 2) || tooManyArgs(args, 2))
     {
       return false;
     }
-- 
2.43.0


From 54f54d1e6da90b9f11155e6b4ee170e1149bb4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 20/23] fix: group files are refused when a number in them runs
 into other text

Reading '0.5' where a position belongs took the 0 and left '.5' to be read as the next
value, so that a file with a missing token could be accepted.
---
 src/GlobalGroupSpace.cpp       |  2 +-
 src/Group.cpp                  |  8 +++++---
 src/Group.hpp                  | 12 ++++++++++++
 src/GroupableTimeSeriesSet.cpp |  4 +++-
 src/LocalLengthGroupSpace.cpp  |  2 +-
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index dcc0160..f25a075 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -104,7 +104,7 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int lenFrom, lenTo;
   int numberOfGroups = 0;
   string distance;
-  if (!(fin >> lenFrom >> lenTo >> distance) || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
+  if (!readNumber(fin, lenFrom) || !readNumber(fin, lenTo) || !(fin >> distance) || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
     throw OnexException("Malformed group file");
   }
   boost::trim_right(distance);
diff --git a/src/Group.cpp b/src/Group.cpp
index f1cd948..5f54ab1 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -107,15 +107,17 @@ void Group::loadGroup(ifstream &fin, vector<bool> &isMember)
   this->centroid = TimeSeries(this->memberLength);
 
   for (int i = 0; i < this->memberLength; i++) {
-    fin >> this->centroid[i];
+    if (!readNumber(fin, this->centroid[i])) {
+      throw OnexException("Malformed group file");
+    }
   }
 
-  if (!(fin >> cnt) || cnt < 1) {
+  if (!readNumber(fin, cnt) || cnt < 1) {
     throw OnexException("Malformed group file");
   }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    if (!(fin >> index >> start)
+    if (!readNumber(fin, index) || !readNumber(fin, start)
         || index < 0 || index >= this->dataset.getItemCount()
         || start < 0 || start >= this->subTimeSeriesCount
         || isMember[index * this->subTimeSeriesCount + start]) {
diff --git a/src/Group.hpp b/src/Group.hpp
index bf738b4..b5e28c8 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -7,6 +7,7 @@
 #include "TimeSeriesSet.hpp"
 #include "distance/Distance.hpp"
 
+#include <cctype>
 #include <fstream>
 
 namespace onex {
@@ -18,6 +19,17 @@ namespace onex {
  */
 typedef std::pair<int, int> member_coord_t;
 
+/**
+ *  @brief read a whole number of a group file, which ends only at a space or the end of the file
+ *
+ *  @return false if there is none, or if it is followed directly by something else
+ */
+template <typename T>
+inline bool readNumber(std::ifstream &fin, T &number)
+{
+  return (fin >> number) && (fin.eof() || std::isspace(fin.peek()) || fin.eof());
+}
+
 /**
  *  @brief a structure, used for identifying membership of a sub-time-series and
  *         the sub-time-series right before it in a group
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index c55cc83..f472381 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include "GroupableTimeSeriesSet.hpp"
 #include "GlobalGroupSpace.hpp"
+#include "Group.hpp"
 #include "Exception.hpp"
 #include "distance/Distance.hpp"
 #include <iomanip>
@@ -85,7 +86,8 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    if (!readNumber(fin, version) || !readNumber(fin, threshold)
+        || !readNumber(fin, grpItemCount) || !readNumber(fin, grpItemLength))
     {
       throw OnexException("Malformed group file");
     }
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index f1b8560..0399a0f 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -138,7 +138,7 @@ int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  if (!(fin >> numberOfGroups)) {
+  if (!readNumber(fin, numberOfGroups)) {
     throw OnexException("Malformed group file");
   }
   // Every time series of this length must be in exactly one group
-- 
2.43.0


From 8e028b5b5458d5005337595fdb7017af3acecff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:43 +0000
Subject: [PATCH 21/23] fix: text that only starts with a number is not taken
 for a number on the command line

---
 cli/OnexCLI.cpp | 55 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index fa9a449..562d463 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -52,6 +52,27 @@ bool tooManyArgs(const vector<string>& args, int limit)
   return false;
 }
 
+// A number followed by something else is not a number
+int toInt(const string& arg)
+{
+  size_t parsed;
+  int number = stoi(arg, &parsed);
+  if (parsed != arg.size()) {
+    throw invalid_argument(arg);
+  }
+  return number;
+}
+
+double toDouble(const string& arg)
+{
+  size_t parsed;
+  double number = stod(arg, &parsed);
+  if (parsed != arg.size()) {
+    throw invalid_argument(arg);
+  }
+  return number;
+}
+
 /**************************************************************************
  * HOW TO CREATE A NEW COMMAND
  *
@@ -80,8 +101,8 @@ MAKE_COMMAND(LoadDataset,
     }
 
     string filePath = args[1];
-    int maxNumRow = args.size() > 2 ? stoi(args[2]) : 0;
-    int startCol  = args.size() > 3 ? stoi(args[3]) : 0;
+    int maxNumRow = args.size() > 2 ? toInt(args[2]) : 0;
+    int startCol  = args.size() > 3 ? toInt(args[3]) : 0;
     string separators = args.size() > 4 ? args[4] : " ";
 
     onex::dataset_info_t info;
@@ -119,7 +140,7 @@ MAKE_COMMAND(SaveDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
     string filePath = args[2];
     char separator = args.size() == 4 && args[3][0] != '\n' ? args[3][0] : ' ';
   
@@ -146,7 +167,7 @@ MAKE_COMMAND(UnloadDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
 
     gOnexAPI.unloadDataset(index);
 
@@ -245,8 +266,8 @@ MAKE_COMMAND(GroupDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
-    onex::data_t threshold = stod(args[2]);
+    int index = toInt(args[1]);
+    onex::data_t threshold = toDouble(args[2]);
 
     int count = -1;
     TIME_COMMAND(
@@ -274,8 +295,8 @@ MAKE_COMMAND(SaveGroup,
       return false;
     }
 
-    int index = stoi(args[1]);
-    bool groupSizeOnly = args.size() == 4 ? stoi(args[3]) : false;
+    int index = toInt(args[1]);
+    bool groupSizeOnly = args.size() == 4 ? toInt(args[3]) : false;
 
     gOnexAPI.saveGroup(index, args[2], groupSizeOnly);
     cout << "Saved groups of dataset " << index << " to " << args[2] << endl;
@@ -299,7 +320,7 @@ MAKE_COMMAND(LoadGroup,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
 
     int numGroups = gOnexAPI.loadGroup(index, args[2]);
     cout << numGroups << " groups loaded for dataset " << index;
@@ -324,7 +345,7 @@ MAKE_COMMAND(NormalizeDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
 
     gOnexAPI.normalizeDataset(index);
 
@@ -345,8 +366,8 @@ MAKE_COMMAND(PAA,
       return false;
     }
 
-    int index = stoi(args[1]);
-    int blockSize = stoi(args[2]);
+    int index = toInt(args[1]);
+    int blockSize = toInt(args[2]);
 
     onex::dataset_info_t info = gOnexAPI.PAA(index, blockSize);
 
@@ -375,16 +396,16 @@ MAKE_COMMAND(Match,
       return false;
     }
 
-    int db_index = stoi(args[1]);
-    int  q_index = stoi(args[2]);
-    int ts_index = stoi(args[3]);
+    int db_index = toInt(args[1]);
+    int  q_index = toInt(args[2]);
+    int ts_index = toInt(args[3]);
     int start = -1;
     int end = -1;
 
     if (args.size() > 4)
     {
-      start = stoi(args[4]);
-      end = stoi(args[5]);
+      start = toInt(args[4]);
+      end = toInt(args[5]);
     }
 
     TIME_COMMAND(
-- 
2.43.0


From c93a521a94347fa596dee7b3c2c067fa0d779e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 22/23] fix: values next to zero (subnormal numbers) are read
 back instead of being refused as out of range

---
 src/TimeSeriesSet.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 33f1381..0acabc9 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -1,11 +1,15 @@
 #include "TimeSeriesSet.hpp"
 
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <string>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
 #include <limits>
+#include <stdexcept>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -73,6 +77,25 @@ TimeSeries tsPAA(const TimeSeries& source, int n)
   return dest;
 }
 
+// Like std::stod, except that the whole text must be the number and that a number
+// next to zero (subnormal, as normalizing may give) is not out of range
+static double parseValue(const string& text)
+{
+  char* end;
+  errno = 0;
+  double value = std::strtod(text.c_str(), &end);
+  std::size_t parsed = end - text.c_str();
+  if (parsed == 0 || text.find_first_not_of(" \t\r", parsed) != string::npos)
+  {
+    throw std::invalid_argument(text);
+  }
+  if (errno == ERANGE && std::fabs(value) == HUGE_VAL)
+  {
+    throw std::out_of_range(text);
+  }
+  return value;
+}
+
 void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
                              int startCol, const string& separators)
 {
@@ -143,13 +166,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         {
           try
           {
-            std::size_t parsed;
-            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter, &parsed);
-            // A number followed by something else is not a number
-            if (tok_iter->find_first_not_of(" \t\r", parsed) != string::npos)
-            {
-              throw std::invalid_argument(*tok_iter);
-            }
+            data[row * (length - startCol) + (col - startCol)] = (data_t)parseValue(*tok_iter);
           }
           catch (const std::invalid_argument& e)
           {
-- 
2.43.0


From 0a2baece82455bf2d95631ac05b647a1d42da762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:37 +0000
Subject: [PATCH 23/23] fix: refuse thresholds that are negative or not finite

Groups made with an infinite threshold (or nan) were saved to a file that
could not be loaded again, and with a negative one not even the
representatives were within half the threshold of their groups.
---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index f472381..7701d4b 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -3,6 +3,7 @@
 #include "Group.hpp"
 #include "Exception.hpp"
 #include "distance/Distance.hpp"
+#include <cmath>
 #include <iomanip>
 #include <iostream>
 #include <limits>
@@ -28,6 +29,10 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
   {
     throw OnexException("No data to group");
   }
+  if (!(threshold >= 0) || std::isinf(threshold))
+  {
+    throw OnexException("Threshold must be a finite number and not negative");
+  }
 
   std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
   int cntGroups = newGroups->group(distance_name, threshold);
-- 
2.43.0

