From 8943ada9efe838e8cdecfe8fbaa487389daa9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 001/104] fix: ThreadPool: decide under the lock whether a task
 is still accepted

enqueueOrdered() read the (non-atomic) stop flag before it took the lock. A
stop() between the check and the insertion let all workers leave with an empty
queue, so the accepted task was never run and its future never became ready.
---
 .../include/aslam/common/thread-pool.h          | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..1459a2f 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -24,6 +24,7 @@
 //
 //   3. This notice may not be removed or altered from any source
 //   distribution.
+#include <atomic>
 #include <condition_variable>
 #include <future>
 #include <functional>
@@ -114,7 +115,7 @@ class ThreadPool {
   // A counter of active threads
   unsigned active_threads_;
   // A signal to stop the threads.
-  volatile bool stop_;
+  std::atomic<bool> stop_;
 };
 
 // Add new work item to the pool.
@@ -131,18 +132,20 @@ std::future<typename std::result_of<Function(Args...)>::type>
 ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
                            Function&& function, Args&&... args) {
   typedef typename std::result_of<Function(Args...)>::type return_type;
-  // Don't allow enqueueing after stopping the pool.
-  if(stop_) {
-    LOG(ERROR) << "enqueue() called on stopped ThreadPool";
-    // An empty future will return valid() == false.
-    return std::future<typename std::result_of<Function(Args...)>::type>();
-  }
   auto task = std::make_shared<std::packaged_task<return_type()>>(
       std::bind(function, std::forward<Args>(args)...));
 
   std::future<return_type> res = task->get_future();
   {
     std::unique_lock<std::mutex> lock(tasks_mutex_);
+    // Don't allow enqueueing after stopping the pool. This has to be checked
+    // with the lock held: the workers leave as soon as they see the stop signal
+    // and an empty queue, so a task that is added later would never run.
+    if(stop_) {
+      LOG(ERROR) << "enqueue() called on stopped ThreadPool";
+      // An empty future will return valid() == false.
+      return std::future<typename std::result_of<Function(Args...)>::type>();
+    }
     groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});
 
     // Initialize a group id exclusivity guard.
-- 
2.43.0


From f8fa34801943d95a2a855cf219771000c7e11848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 002/104] fix: ThreadPool: a thread in waitForEmptyQueue() must
 not swallow a worker's wake-up

enqueueOrdered() notified one of the threads waiting for a queue change. If that
was a thread in waitForEmptyQueue(), an idle worker stayed asleep with a
runnable task in the queue until some other task finished; if that other task
depended on the new one, the pool deadlocked.
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index 1459a2f..efbda2e 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -156,7 +156,9 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
-  tasks_queue_change_.notify_one();
+  // Threads in waitForEmptyQueue() wait for the same signal: notifying only one
+  // thread could wake such a waiter and leave an idle worker asleep.
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From 6e6e63fcc47a34fe2b05c2c4e216d798859d8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 003/104] fix: ReaderFirstReaderWriterMutex: count the waiting
 threads

isInUse() promises to be true while threads wait for read or write access, but
the reader-first lock did not register them, so between a release and the
wake-up of the waiters the lock was reported as unused.
---
 aslam_cv_common/src/reader-first-reader-writer-lock.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/src/reader-first-reader-writer-lock.cc b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
index 559a284..b79d02b 100644
--- a/aslam_cv_common/src/reader-first-reader-writer-lock.cc
+++ b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
@@ -9,14 +9,17 @@ ReaderFirstReaderWriterMutex::~ReaderFirstReaderWriterMutex() {}
 
 void ReaderFirstReaderWriterMutex::acquireReadLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++pending_readers_;
   while (current_writer_) {
     cv_writer_finished_.wait(lock);
   }
+  --pending_readers_;
   ++num_readers_;
 }
 
 void ReaderFirstReaderWriterMutex::acquireWriteLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++num_pending_writers_;
   while (true) {
     while (num_readers_ > (pending_upgrade_ ? 1 : 0)) {
       cv_readers_.wait(lock);
@@ -29,6 +32,7 @@ void ReaderFirstReaderWriterMutex::acquireWriteLock() {
       }
     }
   }
+  --num_pending_writers_;
   current_writer_ = true;
 }
 
-- 
2.43.0


From 07b6551122a3762517af02e2de9e59a3b4fc8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 004/104] fix: isChannelGroupEqual(): lock both groups at once

The two mutexes were locked in argument order, so isChannelGroupEqual(a, b) and
isChannelGroupEqual(b, a) on two threads could deadlock.
---
 aslam_cv_common/src/channel.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..6b71037 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -28,8 +28,10 @@ bool isChannelGroupEqual(const ChannelGroup& left_channels, const ChannelGroup&
   if (&left_channels == &right_channels) {
     return true;
   }
-  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_);
-  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_);
+  // Lock both groups at once: somebody else may compare them the other way round.
+  std::unique_lock<std::mutex> lock_left(left_channels.m_channels_, std::defer_lock);
+  std::unique_lock<std::mutex> lock_right(right_channels.m_channels_, std::defer_lock);
+  std::lock(lock_left, lock_right);
 
   if (left_channels.channels_.size() != right_channels.channels_.size()) {
     return false;
-- 
2.43.0


From a1def387bc91c0c208abdd959ed56345b23f3f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 005/104] fix: ChannelGroup: copy the channels with both groups
 locked

All other operations on a channel group lock it, only the assignment (and with
it the copy constructor) read and wrote the channel maps without the locks.
---
 aslam_cv_common/include/aslam/common/channel.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..4d99ad8 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -126,6 +126,12 @@ struct ChannelGroup {
     *this = other;
   }
   ChannelGroup& operator=(const ChannelGroup& other) {
+    if (this == &other) {
+      return *this;
+    }
+    std::unique_lock<std::mutex> lock(m_channels_, std::defer_lock);
+    std::unique_lock<std::mutex> lock_other(other.m_channels_, std::defer_lock);
+    std::lock(lock, lock_other);
     channels_ = other.channels_;
     return *this;
   }
-- 
2.43.0


From a05d5f3ce346a8dbd52916057e23aac2417bc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 006/104] fix: Timing, Statistics: do not iterate the tag
 registry without its lock

Statistics::Print() and both WriteToYamlFile() iterated the map of tags while
other threads may register new ones; Timing::Print() read the maximum tag
length without the lock.
---
 aslam_cv_common/src/statistics.cc | 18 ++++++++++++++----
 aslam_cv_common/src/timer.cc      | 10 ++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index fdb822d..60ba39b 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -195,7 +195,13 @@ std::string Statistics::SecondsToTimeString(double seconds) {
 }
 
 void Statistics::Print(std::ostream& out) {  // NOLINT
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  size_t max_tag_length;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -203,7 +209,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   out << "Statistics\n";
 
-  out.width((std::streamsize)Instance().max_tag_length_);
+  out.width((std::streamsize)max_tag_length);
   out.setf(std::ios::left, std::ios::adjustfield);
   out << "-----------";
   out.width(7);
@@ -215,7 +221,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   for (const typename map_t::value_type& t : tag_map) {
     size_t i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
@@ -239,7 +245,11 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 }
 
 void Statistics::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 442012d..86c3df4 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -186,7 +186,11 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -225,9 +229,11 @@ void Timing::WriteToYamlFile(const std::string& path) {
 
 void Timing::Print(std::ostream& out) {  // NOLINT
   map_t tagMap;
+  size_t max_tag_length;
   {
     std::lock_guard<std::mutex> lock(Instance().mutex_);
     tagMap = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
   }
 
   if (tagMap.empty()) {
@@ -238,7 +244,7 @@ void Timing::Print(std::ostream& out) {  // NOLINT
   out << "-----------\n";
   for (typename map_t::value_type t : tagMap) {
     size_t time_i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
-- 
2.43.0


From 032980529100a321b1acd33c1fba21ff910c1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 007/104] fix: Accumulator: RollingMean() of an empty
 accumulator is 0, not 0/0

---
 aslam_cv_common/include/aslam/common/statistics/accumulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/statistics/accumulator.h b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
index fbb8613..f404d82 100644
--- a/aslam_cv_common/include/aslam/common/statistics/accumulator.h
+++ b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
@@ -66,7 +66,7 @@ class Accumulator {
   // function for our infinite accumulator at this point.
   SumType RollingMean() const {
     if (WindowSize < kInfiniteWindowSize) {
-      return window_sum_ / std::min(sample_index_, WindowSize);
+      return (sample_index_ < 1) ? 0.0 : window_sum_ / std::min(sample_index_, WindowSize);
     } else {
       return Mean();
     }
-- 
2.43.0


From 113fdcf4a11d9168105713e7bb6faf3af8734345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 008/104] fix: eraseIndicesFromContainer(): do not take back()
 of an empty index list

---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..3e01749 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,10 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
-
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From a005ece43481c27e062cbf63915ee8e22f2b1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 009/104] fix: timeNanosecondsToString(): the sign is not a
 digit

---
 aslam_cv_common/include/aslam/common/time.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/time.h b/aslam_cv_common/include/aslam/common/time.h
index 9308b5b..2a41cc8 100644
--- a/aslam_cv_common/include/aslam/common/time.h
+++ b/aslam_cv_common/include/aslam/common/time.h
@@ -74,14 +74,16 @@ inline bool isValidTime(int64_t time) {
 
 inline std::string timeNanosecondsToString(const int64_t timestamp_nanoseconds) {
   const std::string timestamp_string = std::to_string(timestamp_nanoseconds);
-  const size_t num_digits = timestamp_string.size();
+  const size_t num_characters = timestamp_string.size();
+  const size_t num_digits =
+      (timestamp_nanoseconds < 0) ? num_characters - 1u : num_characters;
   if (num_digits < 10u) {
     return timestamp_string + "ns";
   }
 
   const std::string timestamp_with_units =
-      timestamp_string.substr(0u, num_digits - 9u) + "s " +
-      timestamp_string.substr(num_digits - 9u) + "ns";
+      timestamp_string.substr(0u, num_characters - 9u) + "s " +
+      timestamp_string.substr(num_characters - 9u) + "ns";
   return timestamp_with_units;
 }
 
-- 
2.43.0


From 62046b6ed7754ea4937dd46a58eb097ab52847ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 010/104] fix: HashId::fromHexString(): refuse a string that is
 not hexadecimal

---
 aslam_cv_common/include/aslam/common/hash-id.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/hash-id.h b/aslam_cv_common/include/aslam/common/hash-id.h
index 508548d..64a468f 100644
--- a/aslam_cv_common/include/aslam/common/hash-id.h
+++ b/aslam_cv_common/include/aslam/common/hash-id.h
@@ -84,6 +84,10 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") !=
+        std::string::npos) {
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 8ec44ea7631233c0808fc09f9ce966b3e993242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 011/104] fix: WeightedOccupancyGrid: the const getGridCell()
 overload does not compile

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 +-
 aslam_cv_common/include/aslam/common/occupancy-grid.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..5b2bb78 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -382,7 +382,7 @@ inline bool WeightedOccupancyGrid<PointType>::isValidGridCoordinates(
 template<typename PointType>
 inline typename WeightedOccupancyGrid<PointType>::GridCoordinates
 WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
-    CoordinatesType u_rows, CoordinatesType v_cols) {
+    CoordinatesType u_rows, CoordinatesType v_cols) const {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
   const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid.h b/aslam_cv_common/include/aslam/common/occupancy-grid.h
index 97b4cc9..eecf800 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid.h
@@ -126,7 +126,7 @@ class WeightedOccupancyGrid {
   /// @}
 
  private:
-  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols);
+  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidInputCoordinate(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidGridCoordinates(const GridCoordinates& grid_coordinates) const;
 
-- 
2.43.0


From b8b49928714416c0c5648790a668ba925e6a9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 012/104] fix: removePointsFromFullestCellsUntilSize(): allow
 emptying cells with a single point

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 5b2bb78..5516442 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -268,8 +268,6 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
 template<typename PointType>
 size_t WeightedOccupancyGrid<PointType>::removeWeightedPointsFromOverfullCell(
     const GridCoordinates& grid_coords, size_t max_points_per_cell) {
-  CHECK_GT(max_points_per_cell, 0u);
-
   PointList& cell = getGridCell(grid_coords);
   if (cell.size() <= max_points_per_cell) {
     return 0u;
-- 
2.43.0


From c4025f5dc3264ea9c0dd13b127764085416a037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 013/104] fix: addPointOrReplaceWeakestNearestPoints(): accept
 points with the lowest possible weight

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 5516442..94e9668 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -163,14 +163,13 @@ void WeightedOccupancyGrid<PointType>::addPointOrReplaceWeakestNearestPoints(
       const WeightType point_weight =
           cell[point_indices[violator_index]].weight;
 
-      if (point_weight > highest_weight) {
+      if (highest_weight_cell == nullptr || point_weight > highest_weight) {
         highest_weight = point_weight;
         highest_weight_cell = CHECK_NOTNULL(&cell);
         highest_weight_violator_idx = violator_index;
       }
     }
   }
-  CHECK_GT(highest_weight, std::numeric_limits<WeightType>::lowest());
   CHECK_NOTNULL(highest_weight_cell);
   CHECK_GE(highest_weight_violator_idx, 0);
   CHECK_LT(highest_weight_violator_idx, distance_violating_points[highest_weight_cell].size());
-- 
2.43.0


From 15a863024769a89dc2df72edcf85d5917def5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 014/104] fix: WeightedOccupancyGrid: a coordinate right below
 the maximum belongs to the last cell

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 94e9668..f7df862 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -385,7 +385,9 @@ WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
   const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
   const size_t grid_col = static_cast<size_t>(std::floor(v_cols / cell_size_cols_));
 
-  GridCoordinates grid_coordinates(grid_row, grid_col);
+  // The division can round up to the number of cells for coordinates right below the maximum.
+  GridCoordinates grid_coordinates(std::min(grid_row, num_grid_rows_ - 1u),
+                                   std::min(grid_col, num_grid_cols_ - 1u));
   return grid_coordinates;
 }
 
-- 
2.43.0


From b0ec38e55d3f468050017e6c072895968fd9b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 015/104] fix: serializeToString(): do not round floating point
 channels to six decimals

---
 .../aslam/common/channel-serialization.h      | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..63d1c48 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -2,7 +2,9 @@
 #define ASLAM_CHANNEL_SERIALIZATION_H_
 
 #include <cstdint>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -304,13 +306,26 @@ bool serializeToBuffer(const cv::Mat& matrix,
                        char** buffer, size_t* size);
 
 template<typename Scalar>
-bool serializeToString(const Scalar& value, std::string* string) {
+bool serializeToString(const Scalar& value, std::string* string,
+                       typename std::enable_if<!std::is_floating_point<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(string);
   std::string value_string = std::to_string(value);
   string->swap(value_string);
   return true;
 }
 
+template<typename Scalar>
+bool serializeToString(const Scalar& value, std::string* string,
+                       typename std::enable_if<std::is_floating_point<Scalar>::value>::type* = 0) {
+  CHECK_NOTNULL(string);
+  // Enough digits to get exactly the same value back.
+  std::ostringstream stream;
+  stream.precision(std::numeric_limits<Scalar>::max_digits10);
+  stream << value;
+  *string = stream.str();
+  return true;
+}
+
 template<typename Scalar>
 bool deSerializeFromString(const std::string& string,
                            Scalar* value,
@@ -328,7 +343,10 @@ bool deSerializeFromString(const std::string& string,
                              = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stod(string));
+  // Not std::stod, which throws for denormalized numbers.
+  char* end = nullptr;
+  (*value) = static_cast<Scalar>(std::strtod(string.c_str(), &end));
+  CHECK(end != string.c_str()) << "Not a number: " << string;
   return true;
 }
 
-- 
2.43.0


From b4a5b1c38cb2f15dc77430e9d65310bd6d124edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 016/104] fix: deSerializeFromString(): read back unsigned
 values above the signed maximum

---
 .../include/aslam/common/channel-serialization.h            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index 63d1c48..45ca8fa 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -332,7 +332,11 @@ bool deSerializeFromString(const std::string& string,
                            typename std::enable_if<std::is_integral<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stoll(string));
+  if (std::is_signed<Scalar>::value) {
+    (*value) = static_cast<Scalar>(std::stoll(string));
+  } else {
+    (*value) = static_cast<Scalar>(std::stoull(string));
+  }
   return true;
 }
 
-- 
2.43.0


From 017abfa0d20de565a36e4236c2174e39d3211838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 017/104] fix: deSerializeFromBuffer(): check the size of a
 serialized list of matrices

---
 .../include/aslam/common/channel-serialization.h           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index 45ca8fa..ef3ae30 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -247,12 +247,15 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(matrices);
 
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
 
+  HeaderInformation header;
+  CHECK_LE(repeat, (size - offset) / header.size());
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
-    HeaderInformation header;
+    CHECK_LE(header.size(), size - offset);
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -279,9 +282,11 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
 
     size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
+    CHECK_LE(matrix_size, size - offset);
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
+  CHECK_EQ(size, offset);
 
   return true;
 }
-- 
2.43.0


From 155e017789938ac527207c51fc548c6848699b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 018/104] fix: deSerializeFromBuffer(): refuse image headers
 that cv::Mat cannot represent

---
 aslam_cv_common/src/channel-serialization.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..225b292 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -101,6 +101,9 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
+  CHECK_GT(header.channels, 0u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
+  CHECK_LE(static_cast<uint64_t>(header.rows) * header.cols, size);
   size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
-- 
2.43.0


From 67161fad790f7533435084981d7e7d47b33d7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 019/104] fix: Hamming: do not overflow the counters for
 descriptors of more than 496 bytes

---
 .../include/aslam/common/hamming-inl.h            | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 0d19583..13ee81b 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -107,9 +107,9 @@ const int numberOf128BitWords) {
   xmm5 = _mm_setzero_si128();  // xmm5 -- global accumulator.
 
   const __m128i* end = signature1 + numberOf128BitWords;
-  xmm4 = xmm5;  // xmm4 -- local accumulator.
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
-  do {
+  while (signature1 < end) {
+    xmm4 = _mm_setzero_si128();  // xmm4 -- local accumulator.
     xmm0 = _mm_xor_si128(*signature1++, *signature2++);
     xmm1 = xmm0;
     xmm1 = _mm_srl_epi16(xmm1, shiftval);
@@ -121,15 +121,16 @@ const int numberOf128BitWords) {
     xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
     xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
     xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
-  }while (signature1 < end);
-  // Update global accumulator(two 32-bits counters).
-  xmm4 = _mm_sad_epu8(xmm4, xmm5);
-  xmm5 = _mm_add_epi32(xmm5, xmm4);
+    // Update global accumulator(two 32-bits counters), before the 8-bit
+    // counters of the local one can overflow.
+    xmm4 = _mm_sad_epu8(xmm4, _mm_setzero_si128());
+    xmm5 = _mm_add_epi32(xmm5, xmm4);
+  }
   // finally add together 32-bits counters stored in global accumulator.
   // __asm__ volatile(
   //  "movhlps  %%xmm5, %%xmm0 \n"
   // TODO(slynen): fix with appropriate intrinsic
-  xmm0 = _mm_cvtps_epi32(_mm_movehl_ps(_mm_cvtepi32_ps(xmm0),
+  xmm0 = _mm_cvtps_epi32(_mm_movehl_ps(_mm_cvtepi32_ps(xmm5),
       _mm_cvtepi32_ps(xmm5)));
   xmm0 = _mm_add_epi32(xmm0, xmm5);
   result = _mm_cvtsi128_si32(xmm0);
-- 
2.43.0


From b82a3c167441198969a1f0ba25f4e3f9ea477436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 020/104] fix: Hamming: descriptors are not necessarily aligned
 to 16 bytes

---
 aslam_cv_common/include/aslam/common/hamming-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 13ee81b..a890a05 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -110,7 +110,8 @@ const int numberOf128BitWords) {
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
   while (signature1 < end) {
     xmm4 = _mm_setzero_si128();  // xmm4 -- local accumulator.
-    xmm0 = _mm_xor_si128(*signature1++, *signature2++);
+    xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++),
+                         _mm_loadu_si128(signature2++));
     xmm1 = xmm0;
     xmm1 = _mm_srl_epi16(xmm1, shiftval);
     xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
-- 
2.43.0


From f7393b3217a528ad1d04d8832bbf0e5e500095fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 021/104] fix: Hamming::evaluate(): count the bytes after the
 last 128 bit word

---
 aslam_cv_common/include/aslam/common/hamming.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming.h b/aslam_cv_common/include/aslam/common/hamming.h
index cf57f11..df41c3e 100644
--- a/aslam_cv_common/include/aslam/common/hamming.h
+++ b/aslam_cv_common/include/aslam/common/hamming.h
@@ -99,14 +99,19 @@ class  Hamming {
   static ResultType evaluate(const unsigned char* a,
                              const unsigned char* b,
                              const int size) {
+    // The bytes after the last complete 128 bit word.
+    ResultType rest = 0;
+    for (int i = size - size % 16; i < size; ++i) {
+      rest += __builtin_popcount(a[i] ^ b[i]);
+    }
 #ifdef __ARM_NEON
-    return NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
+    return rest + NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
                              reinterpret_cast<const uint8x16_t*>(b),
                              size / 16);
 #else
-    return SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
-                              reinterpret_cast<const __m128i*>(b),
-                              size / 16);
+    return rest + SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
+                                     reinterpret_cast<const __m128i*>(b),
+                                     size / 16);
 #endif  // __ARM_NEON
   }
 
-- 
2.43.0


From 68f7ee298cda2485c0aa1b009c7c4dbc96fe3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 022/104] fix: FeatureDescriptorRef::set_data(): release owned
 data

---
 .../include/aslam/common/feature-descriptor-ref-inl.h          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 643ec5a..ee1cb6c 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -172,6 +172,9 @@ FeatureDescriptorRefBase<unsigned char, WriteAccessors>::data() {
 
 inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::set_data(
     unsigned char* data, bool owned) {
+  if (data != data_) {
+    Release();
+  }
   data_ = data;
   owned_ = owned;
 }
-- 
2.43.0


From 520e0085200d306cb2e9942cfb7b08607ce584d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 023/104] fix: FeatureDescriptorRef: the copy constructor reads
 owned_ before it is set

---
 .../include/aslam/common/feature-descriptor-ref-inl.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index ee1cb6c..33483be 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -121,7 +121,7 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
 inline FeatureDescriptorRefBase<unsigned char, WriteAccessors>::
     FeatureDescriptorRefBase(
         const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs)
-    : Base(nullptr, 0) {
+    : Base(nullptr, 0), owned_(false) {
   if (lhs.owned_) {
     Allocate(lhs.size_bytes_);
     CHECK_EQ(lhs.size_bytes_, size_bytes_);
-- 
2.43.0


From 6f2e44817ec0a32eea5fb42877b1a4732280328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 024/104] fix: ChannelGroup: the copy constructor takes a const
 reference

A temporary, such as the result of cloneChannelGroup(), could not be copied.
---
 aslam_cv_common/include/aslam/common/channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index 4d99ad8..2eadd36 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -122,7 +122,7 @@ bool Channel<TYPE>::operator==(const Channel<TYPE>& other) {
 typedef std::unordered_map<std::string, std::shared_ptr<ChannelBase>> ChannelMap;
 struct ChannelGroup {
   ChannelGroup() = default;
-  ChannelGroup(ChannelGroup& other) {
+  ChannelGroup(const ChannelGroup& other) {
     *this = other;
   }
   ChannelGroup& operator=(const ChannelGroup& other) {
-- 
2.43.0


From 830bb94b3fd38d1e208b5c9a1a54ec40c5de1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 025/104] fix: Channel<cv::Mat>: compare images of different
 size or type, with several channels and empty ones

OpenCV throws for all of these.
---
 aslam_cv_common/src/channel.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index 6b71037..ebb15c2 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -9,7 +9,14 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  if (value_.size != other.value_.size || value_.type() != other.value_.type()) {
+    return false;
+  }
+  if (value_.empty()) {
+    return true;
+  }
+  const cv::Mat differences = (value_ != other.value_);
+  return cv::countNonZero(differences.reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From 0b92e52bd24b89000a591ebb538970a1bbd04c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 026/104] fix: Channel: values of different size are different

Comparing Eigen matrices (or lists of them) of different size is an assertion in Eigen.
---
 .../include/aslam/common/channel.h            | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index 2eadd36..21778e1 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -18,6 +18,7 @@
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
@@ -48,6 +49,32 @@ struct ChannelValueCloner :
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
 };
+
+// Eigen only allows to compare matrices of the same size.
+template<typename ValueType>
+bool areValuesEqual(const ValueType& left, const ValueType& right) {
+  return left == right;
+}
+template<typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
+bool areValuesEqual(
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& left,
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& right) {
+  return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+}
+template<typename ValueType, typename Allocator>
+bool areValuesEqual(
+    const std::vector<ValueType, Allocator>& left,
+    const std::vector<ValueType, Allocator>& right) {
+  if (left.size() != right.size()) {
+    return false;
+  }
+  for (size_t i = 0u; i < left.size(); ++i) {
+    if (!areValuesEqual(left[i], right[i])) {
+      return false;
+    }
+  }
+  return true;
+}
 }
 
 class ChannelBase {
@@ -100,7 +127,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::areValuesEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other == nullptr && value_ == nullptr) {
-- 
2.43.0


From 4816eb60f9d237176153eee8945f2286d6aa3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 027/104] fix: Statistics::SecondsToTimeString(): do not drop
 whole minutes

Neither minutes nor hours are printed unless SM_TIMING_SHOW_* is defined.
---
 aslam_cv_common/src/statistics.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index 60ba39b..2d9e397 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -169,7 +169,12 @@ double Statistics::GetVarianceDeltaTime(size_t handle) {
 }
 
 std::string Statistics::SecondsToTimeString(double seconds) {
+#ifdef SM_TIMING_SHOW_MINUTES
   double secs = fmod(seconds, 60);
+#else
+  // The minutes are not printed, so they have to be part of the seconds.
+  double secs = seconds;
+#endif
   int minutes = (seconds / 60);
   int hours = (seconds / 3600);
   minutes = minutes - (hours * 60);
-- 
2.43.0


From 707213f1cd7303c425bb0a0432afb0f04902db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 028/104] fix: YAML: an element of a matrix stored as a linear
 array has one entry

The check was inverted: it refused the lists with one entry and silently dropped all but the first entry of the others.
---
 aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 8a015ab..2c9f201 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -61,7 +61,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         for (IndexType j = 0; j < cols; ++j) {
           CHECK(it != it_end);
           if (it->IsSequence()) {
-            CHECK(it->size() != 1u) << "Wrong dimension of Eigen-type matrix!";
+            CHECK(it->size() == 1u) << "Wrong dimension of Eigen-type matrix!";
             M(i, j) = it->begin()->as<Scalar>();
           } else {
             M(i, j) = it->as<Scalar>();
-- 
2.43.0


From c68340fbd35b32be8f4bf5e8b63d09cfb2b68edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 029/104] fix: YAML: refuse matrices of negative size

---
 .../aslam/common/yaml-serialization-eigen.h    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 2c9f201..e3b2cd0 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -147,6 +147,12 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (rows < 0 || cols < 0) {
+      LOG(ERROR) << "The matrix has a negative size (rows, cols): (" << rows
+                 << ", " << cols << ")";
+      return false;
+    }
+
     M.resize(rows, Eigen::NoChange);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -172,6 +178,12 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (rows < 0 || cols < 0) {
+      LOG(ERROR) << "The matrix has a negative size (rows, cols): (" << rows
+                 << ", " << cols << ")";
+      return false;
+    }
+
     M.resize(Eigen::NoChange, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -192,6 +204,12 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
     IndexType rows = node["rows"].as<IndexType>();
     IndexType cols = node["cols"].as<IndexType>();
 
+    if (rows < 0 || cols < 0) {
+      LOG(ERROR) << "The matrix has a negative size (rows, cols): (" << rows
+                 << ", " << cols << ")";
+      return false;
+    }
+
     M.resize(rows, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
-- 
2.43.0


From 29c87cab7f78def870bbcdfc0a0c5efa4cc3aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 030/104] fix: VisualNPipeline::shutdown(): do not lose the
 wake-up of waiting threads

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index a6b0998..aabb9ab 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -53,7 +53,12 @@ VisualNPipeline::~VisualNPipeline() {
 }
 
 void VisualNPipeline::shutdown() {
-  shutdown_ = true;
+  {
+    // Waiters check the flag with the mutex held; setting it in between their
+    // check and their wait would lose the wake-up.
+    std::lock_guard<std::mutex> lock(mutex_);
+    shutdown_ = true;
+  }
   condition_not_empty_.notify_all();
   condition_not_full_.notify_all();
   thread_pool_->stop();
-- 
2.43.0


From 697988ae29354c4d6e4d13e769ec216e9fb13612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 031/104] fix: VisualNPipeline: refuse a camera index equal to
 the number of cameras

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index aabb9ab..309ff6c 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -219,7 +219,7 @@ size_t VisualNPipeline::getNumFramesProcessing() const {
 
 void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
                            int64_t timestamp_nanoseconds) {
-  CHECK_LE(camera_index, pipelines_.size());
+  CHECK_LT(camera_index, pipelines_.size());
   std::shared_ptr<VisualFrame> frame;
   frame = pipelines_[camera_index]->processImage(image, timestamp_nanoseconds);
 
-- 
2.43.0


From b0d139b2ec582134d5e65987164a2d25d6700047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 032/104] fix: VisualFrame: refuse keypoint indices that do not
 fit an int

---
 aslam_cv_frames/src/visual-frame.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 5dce032..1692a07 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -172,44 +172,44 @@ const Eigen::Block<const Eigen::Matrix2Xd, 2, 1>
 VisualFrame::getKeypointMeasurement(size_t index) const {
   const Eigen::Matrix2Xd& keypoints =
       aslam::channels::get_VISUAL_KEYPOINT_MEASUREMENTS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), keypoints.cols());
+  CHECK_LT(index, static_cast<size_t>(keypoints.cols()));
   return keypoints.block<2, 1>(0, index);
 }
 double VisualFrame::getKeypointMeasurementUncertainty(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_MEASUREMENT_UNCERTAINTIES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointOrientation(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_ORIENTATIONS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointScore(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_SCORES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointScale(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_SCALES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 const Eigen::Block<const Eigen::Matrix3Xd, 3, 1>
 VisualFrame::getKeypoint3DPosition(size_t index) const {
   const Eigen::Matrix3Xd& data =
       aslam::channels::get_VISUAL_KEYPOINT_3D_POSITIONS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.cols());
+  CHECK_LT(index, static_cast<size_t>(data.cols()));
   return data.block<3, 1>(0, index);
 }
 int VisualFrame::getKeypointTimeOffset(size_t index) const {
   const Eigen::VectorXi& data =
       aslam::channels::get_VISUAL_KEYPOINT_TIME_OFFSETS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 
@@ -236,7 +236,7 @@ const unsigned char* VisualFrame::getDescriptor(size_t index) const {
 int VisualFrame::getTrackId(size_t index) const {
   const Eigen::VectorXi& track_ids =
       aslam::channels::get_TRACK_IDS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), track_ids.rows());
+  CHECK_LT(index, static_cast<size_t>(track_ids.rows()));
   return track_ids.coeff(index, 0);
 }
 
-- 
2.43.0


From 3b48af8cd94f71ed3bc5dc5605b02c027f570db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 033/104] fix: getNormalizedBearingVectors(): refuse an index
 equal to the number of keypoints

---
 aslam_cv_frames/src/visual-frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 1692a07..f6b484c 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -543,7 +543,7 @@ Eigen::Matrix3Xd VisualFrame::getNormalizedBearingVectors(
 
   size_t list_idx = 0;
   for (const size_t keypoint_idx : keypoint_indices) {
-    CHECK_LE(keypoint_idx, num_keypoints);
+    CHECK_LT(keypoint_idx, num_keypoints);
     keypoints_reduced.col(list_idx++) = keypoints.col(keypoint_idx);
   }
 
-- 
2.43.0


From 2091c9e3a0648a505d80fbf7b0c41c82639e08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 034/104] fix: discardUntrackedObservations(): discard from
 every keypoint channel and descriptor block

---
 aslam_cv_frames/src/visual-frame.cc | 31 +++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index f6b484c..f6401de 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -606,11 +606,34 @@ void VisualFrame::discardUntrackedObservations(
     common::stl_helpers::eraseIndicesFromContainer(
         *discarded_indices, original_count, getKeypointScalesMutable());
   }
-  if (hasDescriptors()) {
-    common::stl_helpers::OneDimensionAdapter<unsigned char,
-    common::stl_helpers::kColumns> adapter(getDescriptorsMutable());
+  if (hasKeypoint3DPositions()) {
+    common::stl_helpers::eraseIndicesFromContainer(
+        *discarded_indices, original_count, getKeypoint3DPositionsMutable());
+  }
+  if (hasKeypointTimeOffsets()) {
     common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, &adapter);
+        *discarded_indices, original_count, getKeypointTimeOffsetsMutable());
+  }
+  if (hasDescriptors()) {
+    CHECK_EQ(static_cast<int>(getNumDescriptors()), original_count);
+    // The keypoint indices run through all descriptor blocks.
+    std::vector<DescriptorsT>& descriptors =
+        aslam::channels::get_DESCRIPTORS_Data(channels_);
+    size_t block_start = 0u;
+    std::vector<size_t>::const_iterator discarded = discarded_indices->begin();
+    for (DescriptorsT& block : descriptors) {
+      const size_t block_size = static_cast<size_t>(block.cols());
+      std::vector<size_t> discarded_in_block;
+      for (; discarded != discarded_indices->end() &&
+             *discarded < block_start + block_size; ++discarded) {
+        discarded_in_block.emplace_back(*discarded - block_start);
+      }
+      common::stl_helpers::OneDimensionAdapter<unsigned char,
+      common::stl_helpers::kColumns> adapter(&block);
+      common::stl_helpers::eraseIndicesFromContainer(
+          discarded_in_block, block_size, &adapter);
+      block_start += block_size;
+    }
   }
   common::stl_helpers::eraseIndicesFromContainer(
       *discarded_indices, original_count, getTrackIdsMutable());
-- 
2.43.0


From 5487613b6dd3276a4f9ec8ab8ac0f86efcce7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 035/104] fix: VisualFrame::clearKeypointChannels(): clear all
 descriptor blocks

---
 aslam_cv_frames/src/visual-frame.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index f6401de..7866ac6 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -450,6 +450,10 @@ void VisualFrame::clearKeypointChannels() {
   setKeypointOrientations(zero_vector_double);
   setKeypointScores(zero_vector_double);
   setKeypointScales(zero_vector_double);
+  if (hasDescriptors()) {
+    aslam::channels::get_DESCRIPTORS_Data(channels_).clear();
+    aslam::channels::get_DESCRIPTOR_TYPES_Data(channels_).resize(0);
+  }
   setDescriptors(aslam::VisualFrame::DescriptorsT());
 }
 
-- 
2.43.0


From 505cede99092a1ab6025ae0922ac80c84caeb2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 036/104] fix: NCamera::setCamera(): keep the index of a camera
 that is in the rig twice for a while

---
 aslam_cv_cameras/src/ncamera.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3b9ce0..74aff06 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -273,9 +273,9 @@ Camera::ConstPtr NCamera::getCameraShared(size_t camera_index) const {
 void NCamera::setCamera(size_t camera_index, Camera::Ptr camera) {
   CHECK(camera);
   CHECK_LT(camera_index, cameras_.size());
-  id_to_index_.erase(cameras_[camera_index]->getId());
   cameras_[camera_index] = camera;
-  id_to_index_[camera->getId()] = camera_index;
+  // The replaced or the new camera might be at another index of the rig, too.
+  initInternal();
 }
 
 size_t NCamera::numCameras() const {
-- 
2.43.0


From e6f4d3cffceba84d76459401f26c3eaba92d1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 037/104] fix: NCamera::cloneRigWithoutDistortion(): index the
 new camera ids

---
 aslam_cv_cameras/src/ncamera.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index 74aff06..403c52a 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -338,6 +338,7 @@ aslam::NCamera::Ptr NCamera::cloneRigWithoutDistortion() const {
     generateId(&cam_id);
     camera->setId(cam_id);
   }
+  rig_without_distortion->initInternal();
 
   aslam::NCameraId ncam_id;
   generateId(&ncam_id);
-- 
2.43.0


From c02e367842e78ec4904bc40cf8fda8b922c6fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 038/104] fix: NCamera: reading YAML replaces the cameras of
 the rig instead of appending

---
 aslam_cv_cameras/src/ncamera.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index 403c52a..df58039 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -97,6 +97,12 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  // Replace whatever this rig contained before.
+  T_C_B_.clear();
+  cameras_.clear();
+  id_to_index_.clear();
+  has_T_G_B_fixed_localization_covariance_ = false;
+
   if (yaml_node["T_G_B_fixed_covariance"]) {
     CHECK(YAML::safeGet(
         yaml_node, "T_G_B_fixed_covariance",
-- 
2.43.0


From 8ca52b82a05d0e06536daa05f71d7f46823227e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 039/104] fix: VisualNFrame timestamps: do not need a rig, do
 not invent a minimum

getMinTimestampNanoseconds() / getMaxTimestampNanoseconds() looked up the number
of frames in the camera rig, so both aborted on an nframe without a rig; and the
minimum of an nframe with no frame set was int64 max, which passes for a valid
time.
---
 aslam_cv_frames/src/visual-nframe.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 09ab075..c408e12 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -166,11 +166,12 @@ bool VisualNFrame::isFrameValid(size_t frame_index) const {
 }
 
 int64_t VisualNFrame::getMinTimestampNanoseconds() const {
-  int64_t min_timestamp_nanoseconds = std::numeric_limits<int64_t>::max();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  int64_t min_timestamp_nanoseconds = aslam::time::getInvalidTime();
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
-      if (timestamp_frame_nanoseconds < min_timestamp_nanoseconds)
+      if (!aslam::time::isValidTime(min_timestamp_nanoseconds) ||
+          timestamp_frame_nanoseconds < min_timestamp_nanoseconds)
         min_timestamp_nanoseconds = timestamp_frame_nanoseconds;
     }
   }
@@ -181,7 +182,7 @@ int64_t VisualNFrame::getMinTimestampNanoseconds() const {
 
 int64_t VisualNFrame::getMaxTimestampNanoseconds() const {
   int64_t max_timestamp_nanoseconds = aslam::time::getInvalidTime();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
       if (timestamp_frame_nanoseconds > max_timestamp_nanoseconds)
-- 
2.43.0


From 05c1cf276f37b6d7302a24301dcfd3510f3fb7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 040/104] fix: FeatureTrack: bounding box of keypoints with
 negative coordinates

numeric_limits<double>::min() is the smallest positive value, so the upper corner
of the box never went below zero.
---
 aslam_cv_frames/include/aslam/frames/feature-track.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/include/aslam/frames/feature-track.h b/aslam_cv_frames/include/aslam/frames/feature-track.h
index 3e6a8f0..fef1390 100644
--- a/aslam_cv_frames/include/aslam/frames/feature-track.h
+++ b/aslam_cv_frames/include/aslam/frames/feature-track.h
@@ -25,9 +25,9 @@ class FeatureTrack {
 
   inline double getDiagonalSqOfDisparityBoundingBox() const {
     double u_min = std::numeric_limits<double>::max();
-    double u_max = std::numeric_limits<double>::min();
+    double u_max = std::numeric_limits<double>::lowest();
     double v_min = std::numeric_limits<double>::max();
-    double v_max = std::numeric_limits<double>::min();
+    double v_max = std::numeric_limits<double>::lowest();
 
     for (const KeypointIdentifier& kid : getKeypointIdentifiers()) {
       const Eigen::Block<const Eigen::Matrix2Xd, 2, 1> keypoint = kid.getKeypointMeasurement();
-- 
2.43.0


From d73a0d6724c39182f8ed8d56175eddc2b89dd779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 041/104] fix: VisualNFrame: compare nframes with unset frames
 instead of aborting

Unset frames are a legal state (isFrameSet(), the copy constructor keeps them).
---
 aslam_cv_frames/src/visual-nframe.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index c408e12..b4c2973 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -200,7 +200,7 @@ bool VisualNFrame::operator==(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= *CHECK_NOTNULL(frames_[i].get()) == *CHECK_NOTNULL(other.frames_[i].get());
+      same &= aslam::checkSharedEqual(frames_[i], other.frames_[i]);
     }
   }
   return same;
@@ -212,8 +212,11 @@ bool VisualNFrame::compareWithoutCameraSystem(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= CHECK_NOTNULL(frames_[i].get())->compareWithoutCameraGeometry(
-          *CHECK_NOTNULL(other.frames_[i].get()));
+      if (frames_[i] && other.frames_[i]) {
+        same &= frames_[i]->compareWithoutCameraGeometry(*other.frames_[i]);
+      } else {
+        same &= !frames_[i] && !other.frames_[i];
+      }
     }
   }
   return same;
-- 
2.43.0


From d12343804d43093c03a3c604daca677d3cb69deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 042/104] fix: VisualNFrame: assignment to itself lost all
 frames

---
 aslam_cv_frames/src/visual-nframe.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index b4c2973..ef88ef2 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -39,6 +39,9 @@ VisualNFrame::VisualNFrame(const VisualNFrame& other) {
 }
 
 VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {
+  if (this == &other) {
+    return *this;
+  }
   id_ = other.id_;
   camera_rig_ = other.camera_rig_;
   frames_.clear();
-- 
2.43.0


From a2a760c541a68311615ee99d33487b8ddedd48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 043/104] fix:
 insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(): descriptors of
 another size

Descriptors longer than those of the frame were written beyond the end of the
matrix; so were all descriptors if the frame had none yet (e.g. after
clearKeypointChannels(), or if no keypoint was detected).
---
 aslam_cv_tracker/src/tracking-helpers.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aslam_cv_tracker/src/tracking-helpers.cc b/aslam_cv_tracker/src/tracking-helpers.cc
index 5425852..82a87f2 100644
--- a/aslam_cv_tracker/src/tracking-helpers.cc
+++ b/aslam_cv_tracker/src/tracking-helpers.cc
@@ -106,6 +106,13 @@ void insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(
   keypointi_scores->conservativeResize(extended_size);
   track_ids->conservativeResize(extended_size);
   keypoint_uncertainties->conservativeResize(extended_size);
+  if (descriptors->cols() == 0) {
+    descriptors->resize(new_cv_descriptors.cols, 0);
+  }
+  if (kAdditionalSize > 0u) {
+    CHECK_EQ(descriptors->rows(), new_cv_descriptors.cols)
+        << "Descriptors of different sizes.";
+  }
   descriptors->conservativeResize(Eigen::NoChange, extended_size);
 
   Eigen::Matrix2Xd new_keypoint_measurements(2, kAdditionalSize);
-- 
2.43.0


From 96701608f93f8950e5767abc7a4bf72df3b9aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 044/104] fix: GyroTwoFrameMatcher: descriptor size of this
 matcher, not of the first one

The static kept the size of the first matcher of the process, so thresholds and
scores of descriptors of another size were wrong.
---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 05d81e7..2efcad9 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -140,7 +140,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
   bool passed_ratio_test = false;
   int n_processed_corners = 0;
   KeyPointIterator it_best;
-  const static unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
+  const unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
   int best_score = static_cast<int>(
       kDescriptorSizeBits * kMatchingThresholdBitsRatioRelaxed);
   unsigned int distance_best = kDescriptorSizeBits + 1;
-- 
2.43.0


From 9d2974a4d9b1614719959927a6f18d23a7dae9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 045/104] fix: GyroTwoFrameMatcher: keep the second best
 distance of an unqualified candidate

A candidate that does not qualify counts for the ratio test, but was forgotten if
the best candidate was found after it: the result depended on the order.
---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 2efcad9..6260483 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -176,7 +176,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
     int current_score = kDescriptorSizeBits - distance;
     if (current_score > best_score) {
       best_score = current_score;
-      distance_second_best = distance_best;
+      distance_second_best = std::min(distance_best, distance_second_best);
       distance_best = distance;
       it_best = it;
       found = true;
@@ -220,7 +220,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
       int current_score = kDescriptorSizeBits - distance;
       if (current_score > best_score) {
         best_score = current_score;
-        distance_second_best = distance_best;
+        distance_second_best = std::min(distance_best, distance_second_best);
         distance_best = distance;
         it_best = it;
         found = true;
-- 
2.43.0


From c9fc80656e86cfbfc6228a123937c174106fd252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 046/104] fix: GyroTwoFrameMatcher: do not abort on
 complementary descriptors

Descriptors without an equal bit have a matching score of 0.
---
 aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 64fbe24..7a15096 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -79,7 +79,7 @@ class GyroTwoFrameMatcher {
     MatchData() = default;
     void addCandidate(
         const KeyPointIterator keypoint_iterator_kp1, const double matching_score) {
-      CHECK_GT(matching_score, 0.0);
+      CHECK_GE(matching_score, 0.0);
       CHECK_LE(matching_score, 1.0);
       keypoint_match_candidates_kp1.push_back(keypoint_iterator_kp1);
       match_candidate_matching_scores.push_back(matching_score);
-- 
2.43.0


From 0fa4a9c3419f459a66ce7e33aabefa6eae7450bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 047/104] fix: GyroTwoFrameMatcher: search the last row of the
 image

The end of the search window was clamped to the beginning of the last row, whose
keypoints were never candidates.
---
 .../include/aslam/matcher/gyro-two-frame-matcher.h          | 4 ++--
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc              | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 7a15096..656d123 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -209,7 +209,7 @@ CHECK_GT(window_half_side_length_px, 0);
   // Compute search area for LUT iterators row-wise.
   int LUT_index_top = clamp(0, kImageHeight - 1, static_cast<int>(
       predicted_keypoint_position(1) + 0.5 - window_half_side_length_px));
-  int LUT_index_bottom = clamp(0, kImageHeight - 1, static_cast<int>(
+  int LUT_index_bottom = clamp(0, kImageHeight, static_cast<int>(
       predicted_keypoint_position(1) + 0.5 + window_half_side_length_px));
 
   *it_keypoints_begin = keypoints_kp1_sorted_by_y_.begin() + corner_row_LUT_[LUT_index_top];
@@ -219,7 +219,7 @@ CHECK_GT(window_half_side_length_px, 0);
   CHECK_GE(LUT_index_bottom, 0);
   CHECK_GE(LUT_index_top, 0);
   CHECK_LT(LUT_index_top, static_cast<int>(kImageHeight));
-  CHECK_LT(LUT_index_bottom, static_cast<int>(kImageHeight));
+  CHECK_LE(LUT_index_bottom, static_cast<int>(kImageHeight));
 }
 
 inline int GyroTwoFrameMatcher::clamp(
diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 6260483..31b3ba1 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -60,7 +60,7 @@ GyroTwoFrameMatcher::GyroTwoFrameMatcher(
   keypoints_kp1_sorted_by_y_.reserve(kNumPointsKp1);
   descriptors_k_wrapped_.reserve(kNumPointsK);
   matches_kp1_k_->reserve(kNumPointsK);
-  corner_row_LUT_.reserve(kImageHeight);
+  corner_row_LUT_.reserve(kImageHeight + 1u);
 }
 
 void GyroTwoFrameMatcher::initialize() {
@@ -99,14 +99,14 @@ void GyroTwoFrameMatcher::initialize() {
   // TODO(magehrig):  Sort by y if image height >= image width,
   //                  otherwise sort by x.
   int v = 0;
-  for (size_t y = 0u; y < kImageHeight; ++y) {
+  for (size_t y = 0u; y <= kImageHeight; ++y) {
     while (v < kNumPointsKp1 &&
         y > static_cast<size_t>(keypoints_kp1_sorted_by_y_[v].measurement(1))) {
       ++v;
     }
     corner_row_LUT_.push_back(v);
   }
-  CHECK_EQ(corner_row_LUT_.size(), kImageHeight);
+  CHECK_EQ(corner_row_LUT_.size(), kImageHeight + 1u);
 }
 
 void GyroTwoFrameMatcher::match() {
-- 
2.43.0


From a3ba8b12953bc39fee3884aabe6d05a754ebd614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 048/104] fix: GyroTwoFrameMatcher: refuse descriptors and
 predictions that do not fit

Descriptors of frame k that are shorter than those of frame k+1, and predictions
for fewer keypoints than frame k has, were read beyond their end.
---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 31b3ba1..22e548a 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -45,6 +45,9 @@ GyroTwoFrameMatcher::GyroTwoFrameMatcher(
       "Number of keypoints and descriptors in frame k+1 is not the same.";
   CHECK_EQ(kNumPointsK, frame_k.getDescriptorsOfType(descriptor_type).cols()) <<
       "Number of keypoints and descriptors in frame k is not the same.";
+  CHECK_EQ(kDescriptorSizeBytes, frame_k.getDescriptorTypeSizeBytes(descriptor_type)) <<
+      "The descriptors of the two frames differ in size.";
+  CHECK_EQ(static_cast<int>(prediction_success_.size()), kNumPointsK);
   CHECK_LE(kDescriptorSizeBytes*8, 512u) << "Usually binary descriptors' size "
       "is less or equal to 512 bits. Adapt the following check if this "
       "framework uses larger binary descriptors.";
-- 
2.43.0


From ab330aea5fe3f3f1f818f5b586bc5e9abd8e10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 049/104] fix: predictKeypointsByRotation(): no predictions for
 a frame without keypoints

The output kept what was in it.
---
 aslam_cv_matcher/src/match-helpers.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_matcher/src/match-helpers.cc b/aslam_cv_matcher/src/match-helpers.cc
index bbd6066..8cfa0ef 100644
--- a/aslam_cv_matcher/src/match-helpers.cc
+++ b/aslam_cv_matcher/src/match-helpers.cc
@@ -54,6 +54,7 @@ void predictKeypointsByRotation(const VisualFrame& frame_k,
       frame_k.getKeypointMeasurementsOfType(descriptor_type);
 
   if (keypoints_k.cols() == 0u) {
+    predicted_keypoints_kp1->resize(Eigen::NoChange, 0);
     return;
   }
 
-- 
2.43.0


From ede35f14ef98446122a027f06a5cce79b55e1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 050/104] fix: the equidistant distortion is the identity at
 the image center, not constant

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..9434841 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From f63be8475dec54786902718937db833a31f5d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 051/104] fix: fisheye parameter Jacobian near the image center
 is proportional to the point

---
 aslam_cv_cameras/src/distortion-fisheye.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..8e0c68e 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -100,8 +100,8 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
-    *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
+    out_jacobian->col(0) = point *
+        ((w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2)));
   }
   else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From 42a4b0c98f562176461c39d6065f98661b63f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 052/104] fix: distortParameterJacobian() uses the internal
 parameters if given nullptr, as documented

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 3 +++
 aslam_cv_cameras/src/distortion-fisheye.cc     | 3 +++
 aslam_cv_cameras/src/distortion-radtan.cc      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 9434841..d22cc8a 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -110,6 +110,9 @@ void EquidistantDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 8e0c68e..e62defd 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -82,6 +82,9 @@ void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd*
 void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coeffs,
                                                  const Eigen::Vector2d& point,
                                                  Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-radtan.cc b/aslam_cv_cameras/src/distortion-radtan.cc
index 12deb37..3d0da9c 100644
--- a/aslam_cv_cameras/src/distortion-radtan.cc
+++ b/aslam_cv_cameras/src/distortion-radtan.cc
@@ -68,6 +68,9 @@ void RadTanDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
-- 
2.43.0


From b0087f08bf1c7c41ccdc1e87ca148ebbc9e483b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 053/104] fix: Jacobian of project4() for points with negative
 w

---
 aslam_cv_cameras/src/camera.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..39cfd5e 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -366,7 +366,8 @@ const ProjectionResult Camera::project4(
   Eigen::Matrix<double, 2, 3> Je;
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
   out_jacobian->setZero();
-  out_jacobian->topLeftCorner<2, 3>() = Je;
+  // The point is negated if its last coordinate is negative.
+  out_jacobian->topLeftCorner<2, 3>() = ((point_4d[3] < 0) ? -1.0 : 1.0) * Je;
 
   return ret;
 }
-- 
2.43.0


From e19deb691eef3400a79e64f3bea50b3a886dce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 054/104] fix: lidar project3Functional() uses the intrinsics
 it is given

---
 .../include/aslam/cameras/camera-3d-lidar-inl.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index df58686..299a8a7 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -25,17 +25,26 @@ const ProjectionResult Camera3DLidar::project3Functional(
 
   const Eigen::Matrix<ScalarType, 3, 1> bearing_vector = point_3d.normalized();
 
+  const ScalarType horizontal_resolution =
+      intrinsics_external[Parameters::kHorizontalResolutionRad];
+  const ScalarType vertical_resolution =
+      intrinsics_external[Parameters::kVerticalResolutionRad];
+  const ScalarType vertical_center =
+      intrinsics_external[Parameters::kVerticalCenterRad];
+  const ScalarType horizontal_center =
+      intrinsics_external[Parameters::kHorizontalCenterRad];
+
   (*out_keypoint)[0] = (std::atan2(bearing_vector.x(), bearing_vector.z()) +
-                        horizontalCenter()) /
-                       horizontalResolution();
+                        horizontal_center) /
+                       horizontal_resolution;
 
   if ((*out_keypoint)[0] < 0.0) {
     (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
   }
 
   (*out_keypoint)[1] =
-      ((std::asin(bearing_vector.y()) + verticalCenter()) /
-       verticalResolution());
+      ((std::asin(bearing_vector.y()) + vertical_center) /
+       vertical_resolution);
 
   return evaluateProjectionResult(*out_keypoint, point_3d);
 }
-- 
2.43.0


From e64ecb7a9cad86dc150092646860ba2cc7942e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 055/104] fix: columns of a lidar repeat after a full turn, not
 after the image width

---
 .../include/aslam/cameras/camera-3d-lidar-inl.h            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index 299a8a7..cc5f260 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -38,8 +38,13 @@ const ProjectionResult Camera3DLidar::project3Functional(
                         horizontal_center) /
                        horizontal_resolution;
 
+  // The azimuth is periodic. The image may cover less than a full turn.
+  const ScalarType columns_per_turn = 2.0 * M_PI / horizontal_resolution;
   if ((*out_keypoint)[0] < 0.0) {
-    (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
+    (*out_keypoint)[0] += columns_per_turn;
+  }
+  if ((*out_keypoint)[0] >= columns_per_turn) {
+    (*out_keypoint)[0] -= columns_per_turn;
   }
 
   (*out_keypoint)[1] =
-- 
2.43.0


From afa7808ea1c72daacae96df889056a02b7fa7503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 056/104] fix: a keypoint that is not a number is masked, it
 indexed outside of the mask

---
 aslam_cv_cameras/include/aslam/cameras/camera.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera.h b/aslam_cv_cameras/include/aslam/cameras/camera.h
index 2bd9d89..30e4852 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera.h
@@ -623,10 +623,11 @@ class Camera : public Sensor {
   /// Check if the keypoint is masked.
   inline bool isMasked(
       const Eigen::Ref<const Eigen::Vector2d>& keypoint) const {
-    return keypoint[0] < 0.0 ||
-           keypoint[0] >= static_cast<double>(image_width_) ||
-           keypoint[1] < 0.0 ||
-           keypoint[1] >= static_cast<double>(image_height_) ||
+    // The conditions are negated such that they hold for NaN.
+    return !(keypoint[0] >= 0.0) ||
+           !(keypoint[0] < static_cast<double>(image_width_)) ||
+           !(keypoint[1] >= 0.0) ||
+           !(keypoint[1] < static_cast<double>(image_height_)) ||
            (!mask_.empty() && mask_.at<uint8_t>(
                                   static_cast<int>(keypoint[1]),
                                   static_cast<int>(keypoint[0])) == 0);
-- 
2.43.0


From 72e5e263efe51f0f9d39ae7d16627ecb4dad80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 057/104] fix: longest line delay of a lidar, whose lines are
 columns, was that of its rows

---
 aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
index cdc1ea9..7a017be 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
@@ -260,10 +260,10 @@ class Camera3DLidar : public aslam::Cloneable<Camera, Camera3DLidar> {
     return static_cast<int64_t>(keypoint(0)) * line_delay_nanoseconds_;
   }
 
-  /// \brief The amount of time elapsed between the first row of the image and
-  /// the last row of the image. For a global shutter camera, this can return
+  /// \brief The amount of time elapsed between the first column of the image and
+  /// the last column of the image. For a global shutter camera, this can return
   /// 0.
-  int64_t rollingShutterDelayNanoSeconds() const {
+  int64_t maxRollingShutterDelayNanoSeconds() const override {
     return this->imageWidth() * line_delay_nanoseconds_;
   }
 
-- 
2.43.0


From fe00fa5ef384c5e41672f80f6dc82b3ae5296946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 058/104] fix: a camera refuses the YAML of another camera type
 instead of changing its type

---
 aslam_cv_cameras/src/camera.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 39cfd5e..5773634 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -204,15 +204,24 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  Type yaml_camera_type;
   if (camera_type == "pinhole") {
-    camera_type_ = Type::kPinhole;
+    yaml_camera_type = Type::kPinhole;
   } else if (camera_type == "unified-projection") {
-    camera_type_ = Type::kUnifiedProjection;
+    yaml_camera_type = Type::kUnifiedProjection;
   } else if (camera_type == "camera-3d-lidar") {
-    camera_type_ = Type::kLidar3D;
+    yaml_camera_type = Type::kLidar3D;
   } else {
     LOG(ERROR) << "Unknown camera model: \"" << camera_type << "\". "
-               << "Valid values are {pinhole, unified-projection}.";
+               << "Valid values are {pinhole, unified-projection, "
+                  "camera-3d-lidar}.";
+    return false;
+  }
+
+  // The type is that of the derived class, which cannot be changed.
+  if (yaml_camera_type != camera_type_) {
+    LOG(ERROR) << "The camera model \"" << camera_type
+               << "\" is not that of this camera.";
     return false;
   }
 
-- 
2.43.0


From 99b550d9ba5f72bf10cd451288f6a8956f33d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 059/104] fix: a missing 'compressed' key of a camera means
 false, not the value from before

---
 aslam_cv_cameras/src/camera.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 5773634..947bc7a 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -246,6 +246,7 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
   }
 
   // Get the optional compressed definition for images or set the default
+  is_compressed_ = false;
   if (YAML::hasKey(yaml_node, "compressed")) {
     if (!YAML::safeGet(yaml_node, "compressed", &is_compressed_)) {
       LOG(WARNING) << "Unable to parse parameter compressed."
-- 
2.43.0


From b110e4461b2acbab7e3be226abb0c427b18c6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 060/104] fix: a mask that does not fit the image size any more
 is dropped, it was read outside

---
 aslam_cv_cameras/include/aslam/cameras/camera.h | 11 +++++++++--
 aslam_cv_cameras/src/camera.cc                  |  8 ++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera.h b/aslam_cv_cameras/include/aslam/cameras/camera.h
index 30e4852..16fce34 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera.h
@@ -220,14 +220,18 @@ class Camera : public Sensor {
     return image_height_;
   }
 
-  /// \brief Set the width of the image in pixels.
+  /// \brief Set the width of the image in pixels. A mask of another width is
+  /// removed.
   void setImageWidth(uint32_t image_width) {
     image_width_ = image_width;
+    clearMaskIfSizeDiffers();
   }
 
-  /// \brief Set the height of the image in pixels.
+  /// \brief Set the height of the image in pixels. A mask of another height is
+  /// removed.
   void setImageHeight(uint32_t image_height) {
     image_height_ = image_height;
+    clearMaskIfSizeDiffers();
   }
 
   /// \brief Print the internal parameters of the camera in a human-readable
@@ -655,6 +659,9 @@ class Camera : public Sensor {
   /// @}
 
  private:
+  /// Masks must be of the size of the image.
+  void clearMaskIfSizeDiffers();
+
   bool isValidImpl() const = 0;
   void setRandomImpl() = 0;
   bool isEqualImpl(const Sensor& other, const bool verbose) const = 0;
diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 947bc7a..2fc56f8 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -196,6 +196,7 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     LOG(ERROR) << "Unable to get the image size.";
     return false;
   }
+  clearMaskIfSizeDiffers();
 
   // Get the camera type
   std::string camera_type;
@@ -448,6 +449,13 @@ void Camera::clearMask() {
   mask_ = cv::Mat();
 }
 
+void Camera::clearMaskIfSizeDiffers() {
+  if (image_height_ != static_cast<size_t>(mask_.rows) ||
+      image_width_ != static_cast<size_t>(mask_.cols)) {
+    clearMask();
+  }
+}
+
 bool Camera::hasMask() const {
   return !mask_.empty();
 }
-- 
2.43.0


From 51b2689fd80c490789d8356b4fd56d78aadcb629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 061/104] fix: createCamera() makes cameras of type kLidar3D

---
 aslam_cv_cameras/src/camera-factory.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aslam_cv_cameras/src/camera-factory.cc b/aslam_cv_cameras/src/camera-factory.cc
index 090fd28..2347929 100644
--- a/aslam_cv_cameras/src/camera-factory.cc
+++ b/aslam_cv_cameras/src/camera-factory.cc
@@ -54,6 +54,11 @@ Camera::Ptr createCamera(aslam::CameraId id, const Eigen::VectorXd& intrinsics,
       camera.reset(new UnifiedProjectionCamera(intrinsics, image_width,
                                                image_height, distortion));
       break;
+    case Camera::Type::kLidar3D:
+      CHECK(distortion_type == Distortion::Type::kNoDistortion)
+          << "A lidar has no distortion.";
+      camera.reset(new Camera3DLidar(intrinsics, image_width, image_height));
+      break;
     default:
       LOG(FATAL) << "Unknown camera model: "
         << static_cast<std::underlying_type<Camera::Type>::type>(camera_type);
-- 
2.43.0


From 9a61dd0e9a09b10f0e726d8d4314aaa57e83bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 062/104] fix: the name of camera type kLidar3D is printed

---
 aslam_cv_cameras/include/aslam/cameras/camera-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
index f9b6fd5..0f7926e 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
@@ -44,6 +44,7 @@ inline std::ostream& operator<<(std::ostream& out, const Camera::Type& value) {
     #define INSERT_ELEMENT(type, val) names[type::val] = #val
     INSERT_ELEMENT(Camera::Type, kPinhole);
     INSERT_ELEMENT(Camera::Type, kUnifiedProjection);
+    INSERT_ELEMENT(Camera::Type, kLidar3D);
     #undef INSERT_ELEMENT
   }
   return out << names[value];
-- 
2.43.0


From 6b75bd58a841236b55a018bb2cca1d1c09b6f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 063/104] fix: a corner of a partly observed target can be
 asked for by any id of the target

---
 .../include/aslam/calibration/target-observation.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..fe604b6 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,7 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_LT(corner_id, static_cast<int>(target_->size()));
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From 28b2002f8dfc1c2908b7c33832a363efe907a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 064/104] fix: indices of observed corners that are negative or
 exceed an int are refused

---
 .../include/aslam/calibration/target-observation.h             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index fe604b6..346b830 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -69,7 +69,7 @@ class TargetObservation {
   }
 
   Eigen::Vector2d getObservedCorner(size_t idx) const {
-    CHECK_LT(static_cast<int>(idx), image_corners_.cols());
+    CHECK_LT(idx, numObservedCorners());
     return image_corners_.col(idx);
   }
 
@@ -90,6 +90,7 @@ class TargetObservation {
   }
 
   size_t getObservedCornerId(int idx) const {
+    CHECK_GE(idx, 0);
     CHECK_LT(idx, corner_ids_.rows());
     return corner_ids_(idx, 0);
   }
-- 
2.43.0


From 6f917e346faa464dfe1d0d759c40460ccd0de79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 065/104] fix: identical and touching circles gave
 intersections that are no numbers

---
 .../include/aslam/calibration/helpers.h              | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/helpers.h b/aslam_cv_calibration/include/aslam/calibration/helpers.h
index 04d7569..61e65cb 100644
--- a/aslam_cv_calibration/include/aslam/calibration/helpers.h
+++ b/aslam_cv_calibration/include/aslam/calibration/helpers.h
@@ -1,6 +1,11 @@
 #ifndef ASLAM_CALIBRATION_CAMERA_INITIALIZER_HELPERS_H
 #define ASLAM_CALIBRATION_CAMERA_INITIALIZER_HELPERS_H
 
+#include <algorithm>
+#include <cmath>
+#include <vector>
+
+#include <glog/logging.h>
 #include <opencv2/core/eigen.hpp>
 #include <Eigen/Core>
 
@@ -35,8 +40,13 @@ class InitializerHelpers {
       return;
     }
 
+    if (d == 0.0) {
+      // The circles are identical.
+      return;
+    }
+
     double a = (square(r1) - square(r2) + square(d)) / (2.0 * d);
-    double h = sqrt(square(r1) - square(a));
+    double h = sqrt(std::max(square(r1) - square(a), 0.0));
 
     double x3 = x1 + a * (x2 - x1) / d;
     double y3 = y1 + a * (y2 - y1) / d;
-- 
2.43.0


From a41514e900505f21ae576e16862032da9db16dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 066/104] fix: focal length initialization used uninitialized
 memory for incomplete views

---
 aslam_cv_calibration/src/focallength-initializers.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_calibration/src/focallength-initializers.cc b/aslam_cv_calibration/src/focallength-initializers.cc
index 976fb41..ec72f98 100644
--- a/aslam_cv_calibration/src/focallength-initializers.cc
+++ b/aslam_cv_calibration/src/focallength-initializers.cc
@@ -120,8 +120,10 @@ bool initFocalLengthAbsoluteConic(
  const double cv = (observations.at(0)->getImageHeight() - 1.0) / 2.0;
 
  const size_t num_obs = observations.size();
- cv::Mat A(num_obs * 2, 2, CV_64F);
- cv::Mat b(num_obs * 2, 1, CV_64F);
+ // The rows of observations that are skipped remain zero.
+ cv::Mat A = cv::Mat::zeros(num_obs * 2, 2, CV_64F);
+ cv::Mat b = cv::Mat::zeros(num_obs * 2, 1, CV_64F);
+ bool has_complete_observation = false;
 
  for (size_t obs_idx = 0u; obs_idx < num_obs; ++obs_idx) {
    TargetObservation::ConstPtr obs = observations[obs_idx];
@@ -133,6 +135,7 @@ bool initFocalLengthAbsoluteConic(
    if (!obs->allCornersObservered()) {
      continue;
    }
+   has_complete_observation = true;
 
    std::vector<cv::Point2f> image_corners(obs->numObservedCorners());
    std::vector<cv::Point2f> M(obs->numObservedCorners());
@@ -187,6 +190,10 @@ bool initFocalLengthAbsoluteConic(
    b.at<double>(obs_idx * 2 + 1, 0) = -d1[2] * d2[2];
  }
 
+ if (!has_complete_observation) {
+   return false;
+ }
+
  cv::Mat f(2, 1, CV_64F);
  cv::solve(A, b, f, cv::DECOMP_NORMAL | cv::DECOMP_LU);
 
-- 
2.43.0


From b100e066b3d0b7800be956a913aa01d04bf6a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 067/104] fix: the tag spacing of a configuration without one
 was uninitialized

---
 aslam_cv_calibration/src/target-aprilgrid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/src/target-aprilgrid.cc b/aslam_cv_calibration/src/target-aprilgrid.cc
index 18a1922..5117059 100644
--- a/aslam_cv_calibration/src/target-aprilgrid.cc
+++ b/aslam_cv_calibration/src/target-aprilgrid.cc
@@ -31,7 +31,7 @@ TargetAprilGrid::TargetConfiguration::fromYaml(const std::string& yaml_file) {
     CHECK_GT(target_config.num_tag_rows, 0u);
     YAML::safeGet(yaml_node, "tagSize", &target_config.tag_size_meter);
     CHECK_GT(target_config.tag_size_meter, 0.0);
-    double relative_tag_spacing;
+    double relative_tag_spacing = 0.0;
     YAML::safeGet(yaml_node, "tagSpacing", &relative_tag_spacing);
     target_config.tag_inbetween_space_meter =
         relative_tag_spacing * target_config.tag_size_meter;
-- 
2.43.0


From d24d521d7d0e6326706f4b0092327440e6458b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 068/104] fix: a row of corners on a straight line made the
 initial focal length no number

---
 aslam_cv_calibration/src/focallength-initializers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/src/focallength-initializers.cc b/aslam_cv_calibration/src/focallength-initializers.cc
index ec72f98..4d8ad57 100644
--- a/aslam_cv_calibration/src/focallength-initializers.cc
+++ b/aslam_cv_calibration/src/focallength-initializers.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <vector>
 
 #include <aslam/cameras/camera-pinhole.h>
@@ -81,7 +82,10 @@ bool initFocalLengthVanishingPoints(
                                              &intersection_points);
         if (intersection_points.size() >= 2) {
           const double f_guess = cv::norm(intersection_points[0] - intersection_points[1]) / M_PI;
-          f_guesses.emplace_back(f_guess);
+          // Corners on a straight line do not define a circle.
+          if (std::isfinite(f_guess)) {
+            f_guesses.emplace_back(f_guess);
+          }
         }
       }
     }
-- 
2.43.0


From 4e347b4ce969e70e3aa9c9cf8f65cbf0394a17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 069/104] fix: undistortion maps of cameras that see behind
 themselves were mirrored

---
 .../include/aslam/common/undistort-helpers.h         | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index fc9cb32..c0f2e8e 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -2,6 +2,7 @@
 #define ASLAM_UNDISTORT_HELPERS_H_
 
 #include <algorithm>
+#include <limits>
 
 #include <Eigen/Dense>
 #include <glog/logging.h>
@@ -191,9 +192,14 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       const Eigen::Vector2d keypoint(j, i);
       Eigen::Vector2d keypoint_dist;
       Eigen::Vector3d point_3d;
-      output_camera.backProject3(keypoint, &point_3d);
-      point_3d /= point_3d[2];
-      input_camera.project3(point_3d, &keypoint_dist);
+      const bool ray_valid = output_camera.backProject3(keypoint, &point_3d);
+      const ProjectionResult result = input_camera.project3(point_3d, &keypoint_dist);
+
+      // Pixels that show nothing of the input image are mapped outside of it.
+      if (!ray_valid || (!(result == ProjectionResult::KEYPOINT_VISIBLE) &&
+                         !(result == ProjectionResult::KEYPOINT_OUTSIDE_IMAGE_BOX))) {
+        keypoint_dist.setConstant(std::numeric_limits<short>::min());
+      }
 
       const double& u = keypoint_dist[0];
       const double& v = keypoint_dist[1];
-- 
2.43.0


From 5251e068f6d35e4a104a8693a25ed8e029b910ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 070/104] fix: far coordinates of fixed point undistortion maps
 wrapped around into the image

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index c0f2e8e..15a6d88 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -208,8 +208,8 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       if (map_type == CV_16SC2) {
         int iu = cv::saturate_cast<int>(u * cv::INTER_TAB_SIZE);
         int iv = cv::saturate_cast<int>(v * cv::INTER_TAB_SIZE);
-        m1[j * 2] = (short) (iu >> cv::INTER_BITS);
-        m1[j * 2 + 1] = (short) (iv >> cv::INTER_BITS);
+        m1[j * 2] = cv::saturate_cast<short>(iu >> cv::INTER_BITS);
+        m1[j * 2 + 1] = cv::saturate_cast<short>(iv >> cv::INTER_BITS);
         m2[j] = (ushort) ((iv & (cv::INTER_TAB_SIZE - 1)) * cv::INTER_TAB_SIZE
             + (iu & (cv::INTER_TAB_SIZE - 1)));
       } else if (map_type == CV_32FC1) {
-- 
2.43.0


From f7578e026597aeac9b0f7e4727eac83de6f2b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 071/104] fix: last row and column of images undistorted with
 alpha 0 showed nothing

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index 15a6d88..7c822dd 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -35,8 +35,8 @@ static void getUndistortRectangles(const DerivedCameraType& input_camera, bool u
 
   for (y = k = 0; y < N; y++) {
     for (x = 0; x < N; x++) {
-      Eigen::Vector2d keypoint(x * input_camera.imageWidth()/ (N - 1),
-                               y * input_camera.imageHeight() / (N - 1));
+      Eigen::Vector2d keypoint(x * (input_camera.imageWidth() - 1.0) / (N - 1),
+                               y * (input_camera.imageHeight() - 1.0) / (N - 1));
 
       // Transform keypoint from image to normalized image plane. (incl. projection effects)
       Eigen::Vector2d keypoint_normalized;
-- 
2.43.0


From c05f29a593a60d2f9e3ef027af39bf92b426befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 072/104] fix: intrinsics of undistorted images were made for
 another size than the image's

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index 7c822dd..a9d3f28 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -119,7 +119,7 @@ static void getUndistortRectangles(const DerivedCameraType& input_camera, bool u
 /// @return The output camera matrix.
 template<typename DerivedCameraType>
 Eigen::Matrix3d getOptimalNewCameraMatrix(const DerivedCameraType& input_camera,
-                                          double alpha, double scale,
+                                          double alpha, float scale,
                                           bool undistort_to_pinhole) {
 
   CHECK_GE(alpha, 0.0); CHECK_LE(alpha, 1.0);
-- 
2.43.0


From 91a9758129990cd57b665f6f41a403b743e2157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 073/104] fix: observability of a triangulated point depended
 on the length of its rays

---
 aslam_cv_triangulation/src/triangulation.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 65d117b..c9ca1c2 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -37,6 +37,7 @@ TriangulationResult linearTriangulateFromNViews(
   for (size_t i = 0; i < measurements_normalized.size(); ++i) {
     Eigen::Vector3d v(measurements_normalized[i](0),
         measurements_normalized[i](1), 1.);
+    v.normalize();
     Eigen::Matrix3d R_G_B = T_G_B[i].getRotationMatrix();
     const Eigen::Vector3d& p_G_B = T_G_B[i].getPosition();
     A.block<3, 3>(3 * i, 0) = Eigen::Matrix3d::Identity();
@@ -49,7 +50,7 @@ TriangulationResult linearTriangulateFromNViews(
   qr.setThreshold(kRankLossTolerance);
   const size_t rank = qr.rank();
 
-  if ((rank - measurements_normalized.size()) < 3) {
+  if (rank < measurements_normalized.size() + 3u) {
     return TriangulationResult(TriangulationResult::UNOBSERVABLE);
   }
 
@@ -131,6 +132,7 @@ TriangulationResult linearTriangulateFromNViewsMultiCam(
     CHECK_LT(cam_index, T_B_C.size());
     Eigen::Vector3d v(measurements_normalized[i](0),
         measurements_normalized[i](1), 1.);
+    v.normalize();
     const Eigen::Vector3d& t_B_C = T_B_C[cam_index].getPosition();
 
     A.block<3, 3>(3 * i, 0) = Eigen::Matrix3d::Identity();
@@ -143,7 +145,7 @@ TriangulationResult linearTriangulateFromNViewsMultiCam(
   static constexpr double kRankLossTolerance = 0.001;
   qr.setThreshold(kRankLossTolerance);
   const size_t rank = qr.rank();
-  if ((rank - measurements_normalized.size()) < 3) {
+  if (rank < measurements_normalized.size() + 3u) {
     return TriangulationResult(TriangulationResult::UNOBSERVABLE);
   }
 
-- 
2.43.0


From d1030d304484762d0600b05658550c429d0892fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 074/104] fix: all rays of a fast triangulated track but one
 were uninitialized

---
 aslam_cv_triangulation/src/triangulation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index c9ca1c2..9682304 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -348,6 +348,7 @@ TriangulationResult fastTriangulateFeatureTrack(
 
     G_bearing_vectors.col(index) = T_W_C.getRotationMatrix() * C_ray;
     p_G_C_vector.col(index) = T_W_C.getPosition();
+    ++index;
   }
 
   VLOG(200) << "Assembled triangulation data.";
-- 
2.43.0


From d67fe3e5a6128a287479a1b2dd598c0531940534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 075/104] fix: a track through several cameras was triangulated
 as if one had seen it

---
 aslam_cv_triangulation/src/triangulation.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 9682304..8ca0f87 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -274,13 +274,11 @@ TriangulationResult triangulateFeatureTrack(
 
   VLOG(200) << "Triangulating track of length " << track_length;
 
-  const aslam::Camera::ConstPtr& camera = track.getFirstKeypointIdentifier().getCamera();
-  CHECK(camera);
-  aslam::Transformation T_B_C = track.getFirstKeypointIdentifier().get_T_C_B().inverse();
-
   // Get the normalized measurements for all observations on the track.
   Aligned<std::vector, Eigen::Vector2d> normalized_measurements;
   normalized_measurements.reserve(track_length);
+  std::vector<size_t> measurement_indices;
+  aslam::TransformationVector T_B_Cs;
 
   for (const aslam::KeypointIdentifier& keypoint_on_track : track.getKeypointIdentifiers()) {
     const aslam::Camera::ConstPtr& camera = keypoint_on_track.getCamera();
@@ -293,6 +291,8 @@ TriangulationResult triangulateFeatureTrack(
     camera->backProject3(keypoint_measurement, &C_ray);
     Eigen::Vector2d normalized_measurement = C_ray.head<2>() / C_ray[2];
     normalized_measurements.push_back(normalized_measurement);
+    measurement_indices.push_back(T_B_Cs.size());
+    T_B_Cs.push_back(keypoint_on_track.get_T_C_B().inverse());
   }
 
   VLOG(200) << "Assembled triangulation data.";
@@ -300,11 +300,9 @@ TriangulationResult triangulateFeatureTrack(
   // Triangulate the landmark.
   CHECK_EQ(track_length, normalized_measurements.size());
   CHECK_EQ(track_length, T_W_Bs.size());
-  aslam::TriangulationResult triangulation_result = linearTriangulateFromNViews(
-                                                        normalized_measurements,
-                                                        T_W_Bs,
-                                                        T_B_C,
-                                                        W_landmark);
+  aslam::TriangulationResult triangulation_result =
+      linearTriangulateFromNViewsMultiCam(normalized_measurements, measurement_indices,
+                                          T_W_Bs, T_B_Cs, W_landmark);
 
   VLOG(200) << "Triangulation returned the following result:" << std::endl
           << triangulation_result;
-- 
2.43.0


From f35015b2ce111e4ba187a4e5c0f90c77b9e6c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 076/104] fix: Gauss-Newton triangulation reported points that
 cannot be observed as found

---
 aslam_cv_triangulation/src/triangulation.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 8ca0f87..bac9482 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -202,10 +202,10 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   // [1.] Loop over iterations.
   // Loop while delta residual too large or number of maximum iterations reached.
   size_t iter = 0;
+  Eigen::MatrixXd jacobian;
   while (residual_norm_last - residual_norm > kPrecision && iter < kIterMax) {
     const size_t num_measurements = 2 * measurements_normalized.size();
     Eigen::VectorXd residuals(num_measurements);
-    Eigen::MatrixXd jacobian(num_measurements, 3);
     residuals.setZero(num_measurements);
     jacobian.setZero(num_measurements, 3);
 
@@ -257,6 +257,13 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
     ++iter;
   } // Iteration loop.
 
+  Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr = jacobian.colPivHouseholderQr();
+  static constexpr double kRankLossTolerance = 1e-5;
+  qr.setThreshold(kRankLossTolerance);
+  if (!jacobian.allFinite() || qr.rank() < 3) {
+    return TriangulationResult(TriangulationResult::UNOBSERVABLE);
+  }
+
   // Coordinate of feature in global frame.
   *G_point = 1.0 / rho * R_Cn_G.transpose() *
       (Eigen::Matrix<double, 3, 1>() << alpha, beta, 1.0).finished() + p_G_Cn;
-- 
2.43.0


From 51ca36104e30b74d2ad59b0786e52fdfa7116836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 077/104] fix: rays and centers of different number were
 triangulated

---
 aslam_cv_triangulation/src/triangulation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index bac9482..20202d8 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -65,6 +65,7 @@ TriangulationResult linearTriangulateFromNViews(
     Eigen::Vector3d* p_G_P) {
   CHECK_NOTNULL(p_G_P);
 
+  CHECK_EQ(t_G_bv.cols(), p_G_C.cols());
   const int num_measurements = t_G_bv.cols();
   if (num_measurements < 2) {
     return TriangulationResult(TriangulationResult::TOO_FEW_MEASUREMENTS);
-- 
2.43.0


From 7aca652779aa98e3e27df97de481f29b2831499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 078/104] fix: Gauss-Newton triangulation started from the
 wrong camera center

---
 aslam_cv_triangulation/src/triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 20202d8..d2362ef 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -185,7 +185,7 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   // Rotation and position of n-th camera in i-th camera frame.
   const aslam::Transformation T_Cn_G = T_B_C.inverse() * T_G_B[n].inverse();
   const Eigen::Matrix3d& R_Cn_G = T_Cn_G.getRotationMatrix();
-  const Eigen::Vector3d& p_G_Cn = T_Cn_G.getPosition();
+  const Eigen::Vector3d p_G_Cn = T_Cn_G.inverse().getPosition();
 
   // Cache matrices that are constant for every iteration.
   Aligned<std::vector, Eigen::Matrix3d> R_Ci_Cn;
-- 
2.43.0


From b18ce2a49f9ffcefda1c5cb90819f032e0aebc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 079/104] fix: the first match of a track did not count for its
 status track length

---
 .../include/aslam/tracker/feature-tracker-gyro.h |  2 ++
 aslam_cv_tracker/src/feature-tracker-gyro.cc     | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h b/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h
index 3e03e30..6c5f428 100644
--- a/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h
+++ b/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h
@@ -147,6 +147,8 @@ class GyroTracker : public FeatureTracker{
   bool initialized_;
   // Store track IDs of frame k and (k-1) in that order.
   std::deque<TrackIds> track_ids_k_km1_;
+  /// Matches of the previous call, i.e. between frames k and (k-1).
+  FrameToFrameMatches matches_k_km1_;
   /// Keep feature status for every index. For frames k and km1 in that order.
   std::deque<FrameFeatureStatus> feature_status_k_km1_;
   /// Keep status track length of frame (k-1) for every index.
diff --git a/aslam_cv_tracker/src/feature-tracker-gyro.cc b/aslam_cv_tracker/src/feature-tracker-gyro.cc
index 211bb5b..dda4dd1 100644
--- a/aslam_cv_tracker/src/feature-tracker-gyro.cc
+++ b/aslam_cv_tracker/src/feature-tracker-gyro.cc
@@ -147,6 +147,7 @@ void GyroTracker::track(const Quaternion& q_Ckp1_Ck,
                lk_candidate_indices_k, frame_k, frame_kp1, matches_kp1_k);
 
     status_track_length_km1_.swap(status_track_length_k);
+    matches_k_km1_ = *matches_kp1_k;
     initialized_ = true;
   }
 }
@@ -318,6 +319,19 @@ void GyroTracker::computeTrackedMatches(
   const std::vector<int> track_ids_km1(
       track_ids_km1_eigen.data(),
       track_ids_km1_eigen.data() + track_ids_km1_eigen.size());
+  // Tracks that begin with a match of frames k and (k-1) get their track ID
+  // only after the track IDs of frame (k-1) have been stored.
+  std::vector<int> index_km1_of_new_track(track_ids_k_eigen.size(), -1);
+  for (const FrameToFrameMatch& match : matches_k_km1_) {
+    const int index_k = match.getKeypointIndexInFrameA();
+    const int index_km1 = match.getKeypointIndexInFrameB();
+    if (index_k < track_ids_k_eigen.size() &&
+        index_km1 < track_ids_km1_eigen.size() &&
+        track_ids_km1_eigen(index_km1) == -1) {
+      index_km1_of_new_track[index_k] = index_km1;
+    }
+  }
+
   for (int index_k = 0; index_k < track_ids_k_eigen.size(); ++index_k) {
     const int track_id_k = track_ids_k_eigen(index_k);
     // Skip invalid track IDs.
@@ -325,6 +339,8 @@ void GyroTracker::computeTrackedMatches(
     const int index_km1 = GetIndexOfValue(track_ids_km1, track_ids_k_eigen(index_k));
     if (index_km1 >= 0) {
       tracked_matches->emplace_back(index_k, index_km1);
+    } else if (index_km1_of_new_track[index_k] >= 0) {
+      tracked_matches->emplace_back(index_k, index_km1_of_new_track[index_k]);
     }
   }
 }
-- 
2.43.0


From d7b7065fd1cbb9ced08e08b1651a33eac6c0532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 080/104] fix: ImagesEqual() compared only the left part of
 images with several channels

---
 aslam_cv_common/include/aslam/common/opencv-predicates.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/opencv-predicates.h b/aslam_cv_common/include/aslam/common/opencv-predicates.h
index 1699645..aabd0fa 100644
--- a/aslam_cv_common/include/aslam/common/opencv-predicates.h
+++ b/aslam_cv_common/include/aslam/common/opencv-predicates.h
@@ -54,8 +54,8 @@ inline testing::AssertionResult ImagesEqualTyped(const cv::Mat& A,
   for (int r = 0; r < A.rows; ++r) {
     for (int c = 0; c < A.cols; ++c) {
       for(int ch = 0; ch < A.channels(); ++ch) {
-        Scalar Aij = (&A.at<Scalar>(r, c))[ch];
-        Scalar Bij = (&B.at<Scalar>(r, c))[ch];
+        Scalar Aij = A.ptr<Scalar>(r)[c * A.channels() + ch];
+        Scalar Bij = B.ptr<Scalar>(r)[c * B.channels() + ch];
         if (!std::isfinite(Aij) ||
             !std::isfinite(Bij) ||
             !Eigen::internal::isApprox(Aij, Bij, tolerance)) {
-- 
2.43.0


From 01ef19206defa138db833b51013e545c1b982a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 081/104] fix: ImagesEqual() ignored the tolerance for integers
 and took it as a relative one otherwise

---
 aslam_cv_common/include/aslam/common/opencv-predicates.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/opencv-predicates.h b/aslam_cv_common/include/aslam/common/opencv-predicates.h
index aabd0fa..eed42e7 100644
--- a/aslam_cv_common/include/aslam/common/opencv-predicates.h
+++ b/aslam_cv_common/include/aslam/common/opencv-predicates.h
@@ -58,7 +58,8 @@ inline testing::AssertionResult ImagesEqualTyped(const cv::Mat& A,
         Scalar Bij = B.ptr<Scalar>(r)[c * B.channels() + ch];
         if (!std::isfinite(Aij) ||
             !std::isfinite(Bij) ||
-            !Eigen::internal::isApprox(Aij, Bij, tolerance)) {
+            std::abs(static_cast<double>(Aij) - static_cast<double>(Bij)) >
+                tolerance) {
           spy_difference << "x";
           if (A.rows == 1) {
             failure_reason <<
-- 
2.43.0


From a333bb787c73e4060a0f83a1a291be1aa68a724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 082/104] fix: a unique pointer to a base class that does not
 come first freed another address

---
 aslam_cv_common/include/aslam/common/memory.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/memory.h b/aslam_cv_common/include/aslam/common/memory.h
index 3e79793..029d623 100644
--- a/aslam_cv_common/include/aslam/common/memory.h
+++ b/aslam_cv_common/include/aslam/common/memory.h
@@ -61,9 +61,20 @@ struct aligned_delete {
   void operator()(Type* ptr) const {
     static_assert(sizeof(Type) > 0, "Can't delete pointer to incomplete type!");
     typedef typename std::remove_const<Type>::type TypeNonConst;
+    void* const allocated_address =
+        getAllocatedAddress(ptr, std::is_polymorphic<Type>());
     Eigen::aligned_allocator<TypeNonConst> allocator;
     allocator.destroy(ptr);
-    allocator.deallocate(ptr, 1u /*num*/);
+    Eigen::internal::aligned_free(allocated_address);
+  }
+
+ private:
+  // The pointer to a base class may differ from the one to the whole object.
+  static void* getAllocatedAddress(Type* ptr, std::true_type /*polymorphic*/) {
+    return dynamic_cast<void*>(ptr);
+  }
+  static void* getAllocatedAddress(Type* ptr, std::false_type /*polymorphic*/) {
+    return ptr;
   }
 };
 }  // namespace internal
-- 
2.43.0


From fa712c5bbcef4e0c93ef8224003c512cb24db6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 083/104] fix: aligned_unique() leaked the memory if the
 constructor threw

---
 aslam_cv_common/include/aslam/common/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/memory.h b/aslam_cv_common/include/aslam/common/memory.h
index 029d623..6b34002 100644
--- a/aslam_cv_common/include/aslam/common/memory.h
+++ b/aslam_cv_common/include/aslam/common/memory.h
@@ -88,7 +88,12 @@ inline AlignedUniquePtr<Type> aligned_unique(Arguments&&... arguments) {
   typedef typename std::remove_const<Type>::type TypeNonConst;
   Eigen::aligned_allocator<TypeNonConst> allocator;
   TypeNonConst* obj = allocator.allocate(1u);
-  allocator.construct(obj, std::forward<Arguments>(arguments)...);
+  try {
+    allocator.construct(obj, std::forward<Arguments>(arguments)...);
+  } catch (...) {
+    allocator.deallocate(obj, 1u);
+    throw;
+  }
   return std::move(AlignedUniquePtr<Type>(obj));
 }
 
-- 
2.43.0


From a20993a5732f65fdc706a0394860a7b5f193c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 084/104] fix: drawKeypoints() left the image of another frame
 in place if there was nothing to draw

---
 aslam_cv_visualization/src/basic-visualization.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_visualization/src/basic-visualization.cc b/aslam_cv_visualization/src/basic-visualization.cc
index c569969..7534e40 100644
--- a/aslam_cv_visualization/src/basic-visualization.cc
+++ b/aslam_cv_visualization/src/basic-visualization.cc
@@ -8,13 +8,13 @@ namespace aslam_cv_visualization {
 void drawKeypoints(
     const aslam::VisualFrame& frame, cv::Mat* image, int descriptor_type) {
   CHECK_NOTNULL(image);
+  cv::cvtColor(frame.getRawImage(), *image, cv::COLOR_GRAY2BGR);
+  CHECK_NOTNULL(image->data);
+
   if (!frame.getNumKeypointMeasurementsOfType(descriptor_type)) {
     return;
   }
 
-  cv::cvtColor(frame.getRawImage(), *image, cv::COLOR_GRAY2BGR);
-  CHECK_NOTNULL(image->data);
-
   const Eigen::Block<const Eigen::Matrix2Xd> keypoints =
       frame.getKeypointMeasurementsOfType(descriptor_type);
   for (int i = 0; i < keypoints.cols(); ++i) {
-- 
2.43.0


From 5b06dde8147cdcf8250906a32570e522241641c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 085/104] fix: drawKeypointMatches() read outside the keypoints
 for negative indices

---
 aslam_cv_visualization/src/basic-visualization.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_visualization/src/basic-visualization.cc b/aslam_cv_visualization/src/basic-visualization.cc
index 7534e40..f5ce70f 100644
--- a/aslam_cv_visualization/src/basic-visualization.cc
+++ b/aslam_cv_visualization/src/basic-visualization.cc
@@ -46,6 +46,8 @@ void drawKeypointMatches(
     const int index_kp1 = match_kp1_k.first;
     const int index_k = match_kp1_k.second;
 
+    CHECK_GE(index_kp1, 0);
+    CHECK_GE(index_k, 0);
     CHECK_LT(index_kp1, keypoints_kp1.cols());
     CHECK_LT(index_k, keypoints_k.cols());
 
-- 
2.43.0


From f8fa07a93c493f4a0a1eee63e0bded3d3d8abad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:23 +0000
Subject: [PATCH 086/104] fix: LSD used only the first line of lists of lines
 in a cv::Mat

---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 5f94958..2b1da29 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -1288,7 +1288,7 @@ void LineSegmentDetectorImpl::drawSegments(InputOutputArray _image, const InputA
     _lines = lines.getMat();
 
     // Draw segments
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < int(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
@@ -1313,13 +1313,13 @@ int LineSegmentDetectorImpl::compareSegments(const Size& size, const InputArray
     _lines2 = lines2.getMat();
     // Draw segments
     std::vector<Mat> _lines;
-    for(int i = 0; i < _lines1.size().width; ++i)
+    for(int i = 0; i < int(_lines1.total()); ++i)
     {
         Point b(_lines1.at<Vec4i>(i)[0], _lines1.at<Vec4i>(i)[1]);
         Point e(_lines1.at<Vec4i>(i)[2], _lines1.at<Vec4i>(i)[3]);
         line(I1, b, e, Scalar::all(255), 1);
     }
-    for(int i = 0; i < _lines2.size().width; ++i)
+    for(int i = 0; i < int(_lines2.total()); ++i)
     {
         Point b(_lines2.at<Vec4i>(i)[0], _lines2.at<Vec4i>(i)[1]);
         Point e(_lines2.at<Vec4i>(i)[2], _lines2.at<Vec4i>(i)[3]);
@@ -1379,7 +1379,7 @@ int LineSegmentDetectorImpl::angle_filtering(InputArray lines, OutputArray filte
     std::vector<Vec4i> f;
     Mat _lines = lines.getMat();
 
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < int(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
@@ -1416,7 +1416,7 @@ int LineSegmentDetectorImpl::filterSize(InputArray lines, OutputArray filtered,
     std::vector<Vec4i> f;
     Mat _lines = lines.getMat();
 
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < int(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
-- 
2.43.0


From c82f741c8ac7f12261793e120f747199fbaa2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 087/104] fix: outlier rejection aborted if the lists of
 matches were used before

---
 aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
index 2f97b59..948d4f5 100644
--- a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
+++ b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
@@ -21,6 +21,8 @@ bool rejectOutlierFeatureMatchesTranslationRotationSAC(
     bool fix_random_seed, double ransac_threshold, size_t ransac_max_iterations,
     aslam::FrameToFrameMatches* inlier_matches_kp1_k,
     aslam::FrameToFrameMatches* outlier_matches_kp1_k) {
+  CHECK_NOTNULL(inlier_matches_kp1_k)->clear();
+  CHECK_NOTNULL(outlier_matches_kp1_k)->clear();
 
   BearingVectors bearing_vectors_kp1;
   BearingVectors bearing_vectors_k;
-- 
2.43.0


From 2eda7a7f2fd787846ba818accbc055b08592a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 088/104] fix: outlier rejection did not notice different
 numbers of bearing vectors

---
 aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
index 948d4f5..e04ac63 100644
--- a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
+++ b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
@@ -59,7 +59,7 @@ bool rejectOutlierFeatureMatchesTranslationRotationSAC(
   CHECK_GT(ransac_threshold, 0.0);
   CHECK_GT(ransac_max_iterations, 0u);
   CHECK_NOTNULL(inlier_indices)->clear();
-  CHECK_EQ(bearing_vectors_kp1.size(), bearing_vectors_kp1.size());
+  CHECK_EQ(bearing_vectors_kp1.size(), bearing_vectors_k.size());
 
   // Handle the case with too few matches to distinguish between out-/inliers.
   static constexpr size_t kMinKeypointCorrespondences = 6u;
-- 
2.43.0


From fefa34faa881f2ba19498054f675be91649efa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 089/104] fix: absolutePoseRansac() ignored the nonlinear
 refinement

---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index e1f9e03..8923511 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -167,8 +167,15 @@ bool PnpPoseEstimator::absolutePoseRansac(
   bool ransac_success = ransac.computeModel();
 
   if (ransac_success) {
-    T_G_C->getPosition() = ransac.model_coefficients_.rightCols(1);
-    Eigen::Matrix<double, 3, 3> R_G_C(ransac.model_coefficients_.leftCols(3));
+    // Optional nonlinear model refinement over all inliers.
+    Eigen::Matrix<double, 3, 4> final_model = ransac.model_coefficients_;
+    if (run_nonlinear_refinement_) {
+      absposeproblem_ptr->optimizeModelCoefficients(
+          ransac.inliers_, ransac.model_coefficients_, final_model);
+    }
+
+    T_G_C->getPosition() = final_model.rightCols(1);
+    Eigen::Matrix<double, 3, 3> R_G_C(final_model.leftCols(3));
     T_G_C->getRotation() = aslam::Quaternion(R_G_C);
   }
 
-- 
2.43.0


From 56625300b435c3fc9c683f20ed30af8c3cfd6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 090/104] fix: RANSAC for 3D points wrote its sample outside of
 the matrices

---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index 8923511..74c5333 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -303,7 +303,7 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
   const std::size_t n_measurements = measurements.cols();
   CHECK_EQ(n_measurements, G_landmark_positions.cols())
       << "Measurements and landmarks are not in pairs.";
-  if (measurements.size() < 6) {
+  if (measurements.cols() < 6) {
     return false;
   }
 
@@ -357,7 +357,7 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
   const std::size_t n_point_set_1 = point_set_1.size();
   const std::size_t n_point_set_2 = point_set_2.size();
   CHECK_EQ(n_point_set_1, n_point_set_2);
-  CHECK_GT(n_point_set_2, 6u);
+  CHECK_GE(n_point_set_2, 6u);
 
   std::vector<std::size_t> outliers;
   for (std::size_t j = 0u; j < ransac_max_iterations; ++j) {
@@ -371,7 +371,7 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
 
     // Generate transformation matrix.
     // https://igl.ethz.ch/projects/ARAP/svd_rot.pdf
-    Eigen::Matrix3d X, Y;
+    Eigen::Matrix<double, 3, 6> X, Y;
     X << point_set_1[ransac_indices[0]], point_set_1[ransac_indices[1]],
         point_set_1[ransac_indices[2]], point_set_1[ransac_indices[3]],
         point_set_1[ransac_indices[4]], point_set_1[ransac_indices[5]];
-- 
2.43.0


From 3d4dbc9c69a0425a9197596b0a76fc5028878fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 091/104] fix: RANSAC for 3D points never kept a result

---
 .../src/pnp-pose-estimator.cc                   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index 74c5333..d2ab4ee 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -326,6 +326,10 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
   ransacTransformationFor3DPoints(
       landmarks, observations, ransac_threshold, max_ransac_iters,pnp_3d_ransac_stopping_ratio,
       &ransac_rotation_matrix, &ransac_translation, inliers, &ransac_outliers);
+  *num_iters = max_ransac_iters;
+  if (inliers->empty()) {
+    return false;
+  }
 
   // Set result.
   T_G_I->getPosition() = ransac_translation;
@@ -336,7 +340,6 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
          observations[inlier])
             .norm());
   }
-  *num_iters = max_ransac_iters;
   return true;
 }
 
@@ -359,6 +362,8 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
   CHECK_EQ(n_point_set_1, n_point_set_2);
   CHECK_GE(n_point_set_2, 6u);
 
+  best_inliers->clear();
+  std::vector<int> inliers;
   std::vector<std::size_t> outliers;
   for (std::size_t j = 0u; j < ransac_max_iterations; ++j) {
     // Generate 6 unique random indices for Ransac.
@@ -397,8 +402,8 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
     const Eigen::Vector3d t = Y_mean - R * X_mean;
 
     // Calculate Outliers for Transformation
+    inliers.clear();
     outliers.clear();
-    best_inliers->clear();
 
     for (std::size_t i = 0u; i < n_point_set_1; ++i) {
       const Eigen::Vector3d transformation_error =
@@ -407,17 +412,19 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
           ransac_threshold) {
         outliers.emplace_back(i);
       } else {
-        best_inliers->emplace_back(i);
+        inliers.emplace_back(i);
       }
     }
     // Compare results
-    const std::size_t n_inliers = best_inliers->size();
+    const std::size_t n_inliers = inliers.size();
     if (n_inliers > best_inliers->size()) {
+      *best_inliers = inliers;
       *best_outliers = outliers;
       *best_rotation_matrix = R;
       *best_translation = t;
     }
-    const double inlier_ratio = n_inliers / (n_inliers + outliers.size());
+    const double inlier_ratio =
+        static_cast<double>(n_inliers) / n_point_set_1;
     if (inlier_ratio > pnp_3d_ransac_stopping_ratio) {
       break;
     }
-- 
2.43.0


From cb943e1379ab393c2d073ea253051d5fb63de3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 092/104] fix: the pose estimated from 3D points lacked the
 rotation and was the inverse one

---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index d2ab4ee..289401c 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -331,9 +331,11 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
     return false;
   }
 
-  // Set result.
-  T_G_I->getPosition() = ransac_translation;
-  T_G_I->getRotationMatrix() = ransac_rotation_matrix;
+  // Set result. RANSAC aligns the landmarks with the observations.
+  T_G_I->getRotation() =
+      aslam::Quaternion(Eigen::Matrix3d(ransac_rotation_matrix.transpose()));
+  T_G_I->getPosition() =
+      -(ransac_rotation_matrix.transpose() * ransac_translation);
   for (const int& inlier : *inliers) {
     inlier_distances_to_model->emplace_back(
         (ransac_rotation_matrix * landmarks[inlier] + ransac_translation -
-- 
2.43.0


From d8cd9a8bb232db136f3428c22a08db799cf374cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 093/104] fix: 3D points of all cameras were taken as seen by
 the first one

---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index 289401c..398b93f 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -299,6 +299,9 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
   CHECK_NOTNULL(inliers)->clear();
   CHECK_NOTNULL(inlier_distances_to_model)->clear();
   CHECK_NOTNULL(num_iters);
+  CHECK_EQ(
+      measurements.cols(),
+      static_cast<int>(measurement_camera_indices.size()));
 
   const std::size_t n_measurements = measurements.cols();
   CHECK_EQ(n_measurements, G_landmark_positions.cols())
@@ -307,17 +310,15 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
     return false;
   }
 
-  const aslam::Transformation& T_C_B = ncamera_ptr->get_T_C_B(0);
-  const aslam::Transformation T_B_C = T_C_B.inverse();
-  const Eigen::Matrix3d& R_B_C = T_B_C.getRotationMatrix();
-  const Eigen::Vector3d& p_B_C = T_B_C.getPosition();
-
   std::vector<Eigen::Vector3d> landmarks;
   std::vector<Eigen::Vector3d> observations;
 
   for (std::size_t i = 0u; i < n_measurements; ++i) {
+    const aslam::Transformation T_B_C =
+        ncamera_ptr->get_T_C_B(measurement_camera_indices[i]).inverse();
     landmarks.emplace_back(G_landmark_positions.col(i));
-    observations.emplace_back(R_B_C * measurements.col(i) + p_B_C);
+    observations.emplace_back(
+        T_B_C.getRotationMatrix() * measurements.col(i) + T_B_C.getPosition());
   }
   Eigen::Matrix3d ransac_rotation_matrix;
   Eigen::Vector3d ransac_translation;
-- 
2.43.0


From 3c9b1b4b72d2322bbb8600bd3c93f61617b5bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 094/104] fix: RANSAC for 3D points set a seed from the time if
 told not to, and drew one sample only

---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index 398b93f..1f8176d 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -368,11 +368,11 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
   best_inliers->clear();
   std::vector<int> inliers;
   std::vector<std::size_t> outliers;
+  if (random_seed_) {
+    std::srand(time(0));
+  }
   for (std::size_t j = 0u; j < ransac_max_iterations; ++j) {
     // Generate 6 unique random indices for Ransac.
-    if (!random_seed_) {
-      std::srand(time(0));
-    }
     std::vector<std::size_t> ransac_indices(n_point_set_1);
     std::iota(ransac_indices.begin(), ransac_indices.end(), 0);
     std::random_shuffle(ransac_indices.begin(), ransac_indices.end());
-- 
2.43.0


From d6d24a2ddb4f40f207093a3a1de9757f5bf6f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 095/104] fix: RANSAC for 3D points asked for thin factors,
 which Eigen refuses for matrices of fixed size

---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index 1f8176d..b9df120 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -395,7 +395,7 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
 
     const Eigen::Matrix3d S = X * Y.transpose();
     const Eigen::JacobiSVD<Eigen::Matrix3d> svd(
-        S, Eigen::ComputeThinU | Eigen::ComputeThinV);
+        S, Eigen::ComputeFullU | Eigen::ComputeFullV);
 
     Eigen::Matrix3d reflection_handler = Eigen::Matrix3d::Identity();
     reflection_handler(2, 2) =
-- 
2.43.0


From 588920e3078823a499b97b3cf029414d2bb015cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 096/104] fix: FREAK pipeline kept raw pointers to a detector
 and an extractor that were already destroyed

---
 aslam_cv_pipeline/src/visual-pipeline-freak.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-pipeline-freak.cc b/aslam_cv_pipeline/src/visual-pipeline-freak.cc
index 6b35c32..01ba040 100644
--- a/aslam_cv_pipeline/src/visual-pipeline-freak.cc
+++ b/aslam_cv_pipeline/src/visual-pipeline-freak.cc
@@ -54,10 +54,14 @@ void FreakVisualPipeline::initializeFreak(size_t num_octaves,
   scale_invariant_ = scale_invariant;
   pattern_scale_ = pattern_scale;
 
-  detector_.reset(cv::xfeatures2d::SurfFeatureDetector::create(
-      hessian_threshold_, octaves_, num_octave_layers_).get());
-  extractor_.reset(cv::xfeatures2d::FREAK::create(
-      rotation_invariant_, scale_invariant_, pattern_scale_, octaves_).get());
+  // The cv::Ptr owns the object, hence it must be kept along with the pointer.
+  const cv::Ptr<cv::Feature2D> detector =
+      cv::xfeatures2d::SurfFeatureDetector::create(
+          hessian_threshold_, octaves_, num_octave_layers_);
+  detector_.reset(detector.get(), [detector](cv::Feature2D*) {});
+  const cv::Ptr<cv::Feature2D> extractor = cv::xfeatures2d::FREAK::create(
+      rotation_invariant_, scale_invariant_, pattern_scale_, octaves_);
+  extractor_.reset(extractor.get(), [extractor](cv::Feature2D*) {});
 }
 
 void FreakVisualPipeline::processFrameImpl(const cv::Mat& image, VisualFrame* frame) const {
-- 
2.43.0


From bf38b1f0c626df411b72baa6eca98f6821937ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 097/104] fix: a FED cycle of a single reordered step read
 before its list

---
 aslam_cv_detector/src/kaze/fed.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/fed.cpp b/aslam_cv_detector/src/kaze/fed.cpp
index 54dab84..4e70272 100644
--- a/aslam_cv_detector/src/kaze/fed.cpp
+++ b/aslam_cv_detector/src/kaze/fed.cpp
@@ -92,7 +92,8 @@ int fed_tau_internal(const int n, const float scale, const float tau_max,
 
     // Choose kappa cycle with k = n/2
     // This is a heuristic. We can use Leja ordering instead!!
-    int kappa = n / 2;
+    // With a single step there is nothing to permute, but kappa must not be 0.
+    int kappa = n > 1 ? n / 2 : 1;
 
     // Get modulus for permutation
     int prime = n + 1;
-- 
2.43.0


From 8b86fdc086342734eaa07df2ca5a6bd43b2703e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 098/104] fix: KAZE's implicit diffusion wrote outside its
 buffer for images that are not square

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 4b0283a..9a20604 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -82,7 +82,8 @@ void KAZE::Allocate_Memory_Evolution() {
   }
   // Allocate memory for the auxiliary variables that are used in the AOS scheme
   else {
-    Ltx_.create(size, CV_32F);
+    // The columns are solved on transposed images.
+    Ltx_.create(cv::Size(options_.img_height, options_.img_width), CV_32F);
     Lty_.create(size, CV_32F);
     px_.create(size, CV_32F);
     py_.create(size, CV_32F);
-- 
2.43.0


From 411cb193efce60da9e40fc985edc154af7f2fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 099/104] fix: KAZE refined keypoints of the previous image
 again in a reused vector

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 9a20604..c374bba 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -259,6 +259,7 @@ void KAZE::Feature_Detection(std::vector<cv::KeyPoint>& kpts) {
   double t2 = 0.0, t1 = 0.0;
   t1 = cv::getTickCount();
 
+  kpts.clear();
   Compute_Detector_Response();
   Determinant_Hessian_Parallel(kpts);
   Do_Subpixel_Refinement(kpts);
-- 
2.43.0


From 0156c6149323f4191f54bd39878cb2f55f252818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 100/104] fix: KAZE's contrast of an image without gradients
 was 0, its scale space not a number

---
 aslam_cv_detector/src/kaze/nldiffusion_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
index 6f8eb37..2cc0feb 100755
--- a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
+++ b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
@@ -191,7 +191,8 @@ float compute_k_percentile(const cv::Mat& img, float perc, float gscale,
   for (k = 0; nelements < nthreshold && k < nbins; k++)
     nelements = nelements + hist[k];
 
-  if (nelements < nthreshold)
+  // Without any gradients below the percentile the contrast must not become zero.
+  if (nelements < nthreshold || nthreshold == 0)
     kperc = 0.03;
   else
     kperc = hmax*((float)(k)/(float)nbins);
-- 
2.43.0


From 69cae89bd696b4d3869fca3a361a77a7bab7a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 101/104] fix: KAZE used images of another size or type than
 its buffers and wrote outside them

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index c374bba..17dc6fa 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -107,6 +107,12 @@ int KAZE::Create_Nonlinear_Scale_Space(const cv::Mat& img) {
     return -1;
   }
 
+  if (img.rows != options_.img_height || img.cols != options_.img_width || img.type() != CV_32FC1) {
+    cout << "Error generating the nonlinear scale space!!" << endl;
+    cout << "The image is not a float image of the size in the options" << endl;
+    return -1;
+  }
+
   t1 = cv::getTickCount();
 
   // Copy the original image to the first level of the evolution
-- 
2.43.0


From 33aca88991153990c8c1a0074a6a44343c23c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 102/104] fix: KAZE moved a keypoint by the offset of another
 one if its own is not determined

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 17dc6fa..e15bdc7 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -472,9 +472,9 @@ void KAZE::Do_Subpixel_Refinement(std::vector<cv::KeyPoint>& kpts) {
     b(1) = -Dy;
     b(2) = -Ds;
 
-    cv::solve(A, b, dst, cv::DECOMP_LU);
+    const bool solved = cv::solve(A, b, dst, cv::DECOMP_LU);
 
-    if (fabs(dst(0)) <= 1.0 && fabs(dst(1)) <= 1.0 && fabs(dst(2)) <= 1.0) {
+    if (solved && fabs(dst(0)) <= 1.0 && fabs(dst(1)) <= 1.0 && fabs(dst(2)) <= 1.0) {
       kpts_[i].pt.x += dst(0);
       kpts_[i].pt.y += dst(1);
       dsc = kpts_[i].octave + (kpts_[i].angle+dst(2))/((float)(options_.nsublevels));
-- 
2.43.0


From 9e4ff56d3d0d442ab10c166458fb857fb5c9862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 103/104] fix: KAZE's main orientation ignored gradients that
 point along x exactly

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index e15bdc7..ff1ea49 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -704,7 +704,7 @@ void KAZE::Compute_Main_Orientation(cv::KeyPoint& kpt) {
         sumX += resX[k];
         sumY += resY[k];
       }
-      else if (ang2 < ang1 && ((ang > 0 && ang < ang2) || (ang > ang1 && ang < 2.0*CV_PI))) {
+      else if (ang2 < ang1 && ((ang >= 0 && ang < ang2) || (ang > ang1 && ang < 2.0*CV_PI))) {
         sumX += resX[k];
         sumY += resY[k];
       }
-- 
2.43.0


From 2fdf2437de362e721e5785315f8030d4b4572b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 104/104] fix: KAZE's contrast of a view depended on the pixels
 around it

---
 aslam_cv_detector/src/kaze/nldiffusion_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
index 2cc0feb..92ec40c 100755
--- a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
+++ b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
@@ -45,7 +45,8 @@ void gaussian_2D_convolution(const cv::Mat& src, cv::Mat& dst, size_t ksize_x,
     ksize_y += 1;
 
   // Perform the Gaussian Smoothing with border replication
-  cv::GaussianBlur(src, dst, cv::Size(ksize_x, ksize_y), sigma, sigma, cv::BORDER_REPLICATE);
+  cv::GaussianBlur(src, dst, cv::Size(ksize_x, ksize_y), sigma, sigma,
+                   cv::BORDER_REPLICATE | cv::BORDER_ISOLATED);
 }
 
 /* ************************************************************************* */
-- 
2.43.0

