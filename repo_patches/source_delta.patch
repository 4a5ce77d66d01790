From 69fe80ff4ebbd97d130075a33a40ad3892770eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 01/35] fix: refuse to open a persistence file with an
 unterminated (torn) last line

---
 blocks/persistence/file.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index f74387d..d059b81 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -239,7 +239,11 @@ class FilePersister {
               }
               current_offset = fi.tellg();
             })) {
-          ;
+          if (fi.eof()) {
+            // The last line has no trailing newline: writing it was interrupted, so it is incomplete, and anything
+            // appended to the file would end up on that same line.
+            CURRENT_THROW(MalformedEntryException("The last line of the file is not terminated."));
+          }
         }
         const auto& next = cit.Next();
         // The `next.us` stores the closest possible next entry timestamp,
-- 
2.43.0


From e2eff56fecbe33f6977ceacac94608ae9f51eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 02/35] fix: notify under the lock when the last borrower of an
 Owned leaves

---
 bricks/sync/owned_borrowed.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 0c5efe0..4da6248 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -127,15 +127,13 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    bool notify = false;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      auto it = borrowers_.find(borrower_index);
-      CURRENT_ASSERT(it != borrowers_.end());
-      borrowers_.erase(it);
-      notify = borrowers_.empty();
-    }
-    if (notify) {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = borrowers_.find(borrower_index);
+    CURRENT_ASSERT(it != borrowers_.end());
+    borrowers_.erase(it);
+    if (borrowers_.empty()) {
+      // Must notify with the mutex locked: once it is unlocked, the destructor may complete,
+      // and then neither the mutex nor the condition variable exist any longer.
       condition_variable_.notify_one();
     }
   }
-- 
2.43.0


From 3f51e1465370ff583b362883b77056328cdfda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 03/35] fix: notify under the lock when a client of an
 intrusive WaitableAtomic leaves

---
 bricks/sync/waitable_atomic.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 02bf49b..bd474ed 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -337,10 +337,9 @@ class WaitableAtomicImpl {
     }
 
     virtual void RefCounterDecrease() override {
-      {
-        std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
-        --ref_count_;
-      }
+      // Notify with the mutex locked: as soon as it is unlocked the destructor may return and `cv_` may be gone.
+      std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
+      --ref_count_;
       cv_.notify_one();
     }
 
-- 
2.43.0


From 91e5398bf6786435c5956a51b7e29946f4fb7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 04/35] fix: MMQ delivers the queued messages before its
 destructor returns, as documented

---
 blocks/mmq/mmq.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 0b33429..8cbbb98 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -144,7 +144,8 @@ class MMQImpl {
         std::unique_lock<std::mutex> lock(mutex_);
         condition_variable_.wait(
             lock, [this, tail] { return (circular_buffer_[tail].status == Entry::READY) || destructing_; });
-        if (destructing_) {
+        // When destructing, export the messages which are already queued first.
+        if (circular_buffer_[tail].status != Entry::READY) {
           return;  // LCOV_EXCL_LINE
         }
         circular_buffer_[tail].status = Entry::BEING_EXPORTED;
-- 
2.43.0


From 3409b66af81cc6228e7e978cee05545fe68f4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 05/35] fix: MMQ checks the timestamp after waiting for an
 empty slot, not before

---
 blocks/mmq/mmq.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 8cbbb98..c2eb2a5 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -213,10 +213,6 @@ class MMQImpl {
     if (destructing_) {
       return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
     }
-    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
-    if (!(timestamp > last_idx_ts_.us)) {
-      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
-    }
     while (circular_buffer_[head_].status != Entry::FREE) {
       // Waiting for the next empty slot in the buffer.
       condition_variable_.wait(lock,
@@ -225,6 +221,13 @@ class MMQImpl {
         return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
       }
     }
+    // Only now, as other threads may have published while this one was waiting for an empty slot.
+    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
+    if (!(timestamp > last_idx_ts_.us)) {
+      // The slot stays free, so whoever else is waiting for it should know.
+      condition_variable_.notify_all();
+      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
+    }
     const size_t index = head_;
     ++last_idx_ts_.index;
     last_idx_ts_.us = timestamp.count() >= 0 ? timestamp : current::time::Now();
-- 
2.43.0


From 6aa358f6453f77cb9b15cce9b8e84a4ba481cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 06/35] fix: MMQ tells the publisher the index and timestamp of
 its own message

---
 blocks/mmq/mmq.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index c2eb2a5..17fd471 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -103,8 +103,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = message;
+      // Once committed, the slot may be consumed and taken by another message at any moment.
+      const idxts_t index_timestamp = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return index_timestamp;
     } else {
       return idxts_t();
     }
@@ -115,8 +117,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = std::move(message);
+      // Once committed, the slot may be consumed and taken by another message at any moment.
+      const idxts_t index_timestamp = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return index_timestamp;
     } else {
       return idxts_t();
     }
-- 
2.43.0


From 675f066b482b1b85e43978fcb29c4ed02dfac75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 07/35] fix: MMPQ does not lose messages with equal timestamps

---
 blocks/mmq/mmpq.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 879ff74..4754ad5 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -135,7 +135,11 @@ class MMPQImpl {
     Entry(Entry&&) = default;
     Entry(message_t&& message_body, idxts_t index_timestamp)
         : index_timestamp(index_timestamp), message_body(std::move(message_body)) {}
-    bool operator<(const Entry& rhs) const { return index_timestamp.us < rhs.index_timestamp.us; }
+    // Entries with equal timestamps are distinct, and keep the order in which they were published.
+    bool operator<(const Entry& rhs) const {
+      return index_timestamp.us < rhs.index_timestamp.us ||
+             (index_timestamp.us == rhs.index_timestamp.us && index_timestamp.index < rhs.index_timestamp.index);
+    }
   };
 
   std::set<Entry> queue_;
-- 
2.43.0


From 92f7a801ae2d18104abfb086628e226c366522be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 08/35] fix: MMPQ delivers the entries already due before its
 destructor returns, as documented

---
 blocks/mmq/mmpq.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 4754ad5..95b58e4 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -108,11 +108,13 @@ class MMPQImpl {
     while (true) {
       std::unique_lock<std::mutex> lock(mutex_);
 
-      condition_variable_.wait(lock, [this] {
-        return (!queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us) || destructing_;
-      });
+      const auto is_due = [this] {
+        return !queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us;
+      };
+      condition_variable_.wait(lock, [this, &is_due] { return is_due() || destructing_; });
 
-      if (destructing_) {
+      // When destructing, process the entries which the head has already reached first.
+      if (!is_due()) {
         return;  // LCOV_EXCL_LINE
       }
 
-- 
2.43.0


From 7b0d7d99a7c9de704e9c1660f95466ed8da4fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 09/35] fix: MemoryPersister locks its own mutex when the
 caller has the publish mutex locked

---
 blocks/persistence/memory.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index a7c45fa..8fc13f4 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -61,6 +61,8 @@ class MemoryPersister {
   struct Container {
     using entry_t = std::pair<std::chrono::microseconds, ENTRY>;
 
+    // Unlike the "publish mutex" of the persister, which `MutexLockStatus` refers to, this one is internal to this class,
+    // so it is always locked here, regardless of whether the caller has the former one locked already.
     mutable std::mutex memory_persister_container_mutex_;
     std::deque<entry_t> entries_;
     std::chrono::microseconds head_ = std::chrono::microseconds(-1);
@@ -153,7 +155,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename E, typename TIMESTAMP>
   idxts_t PersisterPublishImpl(E&& entry, const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     if (!(timestamp > head)) {
@@ -168,7 +170,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterPublishUnsafeImpl(const std::string& raw_log_line) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto tab_pos = raw_log_line.find('\t');
     if (tab_pos == std::string::npos) {
@@ -190,7 +192,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename TIMESTAMP>
   void PersisterUpdateHeadImpl(const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
 
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     const auto head = container_->head_;
@@ -202,19 +204,19 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   bool PersisterEmptyImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->entries_.empty();
   }
 
   template <current::locks::MutexLockStatus MLS>
   uint64_t PersisterSizeImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return static_cast<uint64_t>(container_->entries_.size());
   }
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return idxts_t(container_->entries_.size() - 1, container_->entries_.back().first);
@@ -225,7 +227,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   head_optidxts_t PersisterHeadAndLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return head_optidxts_t(container_->head_, container_->entries_.size() - 1, container_->entries_.back().first);
@@ -236,14 +238,14 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds PersisterCurrentHeadImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->head_;
   }
 
   template <current::locks::MutexLockStatus MLS>
   std::pair<uint64_t, uint64_t> PersisterIndexRangeByTimestampRangeImpl(std::chrono::microseconds from,
                                                                         std::chrono::microseconds till) const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     std::pair<uint64_t, uint64_t> result{static_cast<uint64_t>(-1), static_cast<uint64_t>(-1)};
     const auto begin_it =
         std::lower_bound(container_->entries_.begin(),
@@ -293,7 +295,7 @@ class MemoryPersister {
   template <current::locks::MutexLockStatus MLS, typename ITERABLE>
   ITERABLE PersisterIterateImpl(uint64_t begin, uint64_t end) const {
     const uint64_t size = [this]() {
-      current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+      std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
       return static_cast<uint64_t>(container_->entries_.size());
     }();
 
-- 
2.43.0


From 578e80851a2d7aa264f433a638d826b20e03a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 10/35] fix: wake up a stream subscriber for a head update also
 when it has no entries to read yet

---
 stream/stream.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 28d241f..9cf34ea 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -405,11 +405,17 @@ class Stream final {
         } else {
           std::unique_lock<std::mutex> lock(impl_->publishing_mutex);
           current::WaitableTerminateSignalBulkNotifier::Scope scope(impl_->notifier, terminate_signal_);
-          terminate_signal_.WaitUntil(lock, [this, &index, &begin_idx, &head]() {
-            return terminate_signal_ ||
-                   impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index ||
-                   (index > begin_idx &&
-                    impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head);
+          terminate_signal_.WaitUntil(lock, [this, &index, &head]() {
+            if (terminate_signal_) {
+              return true;
+            }
+            const auto now =
+                impl_->persister
+                    .template HeadAndLastPublishedIndexAndTimestamp<current::locks::MutexLockStatus::AlreadyLocked>();
+            const uint64_t size_now = Exists(now.idxts) ? Value(now.idxts).index + 1 : 0;
+            // The update of the head is worth waking up for even if there have been no entries to read yet.
+            const bool head_updated = (!Exists(now.idxts) || now.head > Value(now.idxts).us) && now.head > head;
+            return size_now > index || (size_now == index && head_updated);
           });
         }
       }
-- 
2.43.0


From a51ca4895457e762b725092e89c18b0cf39abc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 11/35] fix: a stream subscriber with a from-timestamp in the
 future does not spin, and does not get older entries later

---
 stream/stream.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 9cf34ea..fb5593e 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -391,6 +391,10 @@ class Stream final {
         const auto head_idx = impl_->persister.HeadAndLastPublishedIndexAndTimestamp();
         size = Exists(head_idx.idxts) ? Value(head_idx.idxts).index + 1 : 0;
         if (head_idx.head > head) {
+          if (index == begin_idx && size > index && from_us_.count() > 0) {
+            // Skip the entries from before `from_us_`, including the ones published while it was in the future.
+            index = std::max(index, std::min(size, impl_->persister.IndexRangeByTimestampRange(from_us_).first));
+          }
           if (size > index) {
             if (PassEntriesToSubscriber(*impl_, index, size) == ss::EntryResponse::Done) {
               return;
@@ -414,8 +418,8 @@ class Stream final {
                     .template HeadAndLastPublishedIndexAndTimestamp<current::locks::MutexLockStatus::AlreadyLocked>();
             const uint64_t size_now = Exists(now.idxts) ? Value(now.idxts).index + 1 : 0;
             // The update of the head is worth waking up for even if there have been no entries to read yet.
-            const bool head_updated = (!Exists(now.idxts) || now.head > Value(now.idxts).us) && now.head > head;
-            return size_now > index || (size_now == index && head_updated);
+            const bool head_updated = !Exists(now.idxts) || now.head > Value(now.idxts).us;
+            return now.head > head && (size_now > index || (size_now == index && head_updated));
           });
         }
       }
-- 
2.43.0


From 2b632f200ed21e0d30bd5409581b6a9db4a7bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 12/35] fix: taking the authority to publish does not deadlock
 with a borrower which is about to publish

---
 stream/stream.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index fb5593e..44102ce 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -154,6 +154,11 @@ class Stream final {
   // DIMA Optional<BorrowedOfGuaranteedLifetime<publisher_t>> borrowable_publisher_;
   Optional<Borrowed<publisher_t>> borrowable_publisher_;
 
+  // Guards the two members above. This is not `publishing_mutex` of `impl_`, as `RecreatePublisher` waits, with the mutex
+  // locked, for the borrowed publishers to be released, and those using them need `publishing_mutex` to complete publishing.
+  // `MutexLockStatus` in the methods below refers to `publishing_mutex`; this one is internal, and is always locked.
+  mutable std::mutex publisher_mutex_;
+
  public:
   // "Constructors" and the destructor.
   template <typename... ARGS>
@@ -215,7 +220,7 @@ class Stream final {
   // CAN THROW `PublisherNotAvailableException`.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   WeakBorrowed<publisher_t>& Publisher() {
-    current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
+    std::lock_guard<std::mutex> lock(publisher_mutex_);
     if (Exists(borrowable_publisher_)) {
       return Value(borrowable_publisher_);
     } else {
@@ -228,7 +233,7 @@ class Stream final {
   // CAN THROW `PublisherNotAvailableException`.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   Borrowed<publisher_t> BorrowPublisher() {
-    current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
+    std::lock_guard<std::mutex> lock(publisher_mutex_);
     if (Exists(borrowable_publisher_)) {
       return Value(borrowable_publisher_);
     } else {
@@ -239,7 +244,7 @@ class Stream final {
   // Master-follower logic.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   bool IsMasterStream() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
+    std::lock_guard<std::mutex> lock(publisher_mutex_);
     return Exists(borrowable_publisher_);
   }
 
@@ -248,7 +253,7 @@ class Stream final {
   // NOTE: The call to `BecomeMasterStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   void BecomeMasterStream() {
-    current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
+    std::lock_guard<std::mutex> lock(publisher_mutex_);
     borrowable_publisher_ = RecreatePublisher();
   }
 
@@ -259,7 +264,7 @@ class Stream final {
   // NOTE: The call to `BecomeFollowingStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   Borrowed<publisher_t> BecomeFollowingStream() {
-    current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
+    std::lock_guard<std::mutex> lock(publisher_mutex_);
     return RecreatePublisher();
   }
 
-- 
2.43.0


From 30e2a0dcfa797dfd64ac441fbff9b9da818861b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 13/35] fix: the iterators over a file persister do not race
 with publishing

---
 blocks/persistence/file.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index d059b81..1f8d367 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -154,6 +154,9 @@ class FilePersister {
     // and `record_offset_[i]` is the record_offset_ in bytes where the line for index `i` begins.
     std::mutex& publish_mutex_ref_;  // Guards `record_offset_`, `head_offset_` and `record_timestamp_`.
     std::vector<std::streampos> record_offset_;
+    // The iterators read `record_offset_` while more entries are being published, and, unlike the rest of this class,
+    // can not use the publish mutex, as it may well be locked by the very thread which does the iteration.
+    mutable std::mutex record_offset_mutex_;
     std::streampos head_offset_;
     std::vector<std::chrono::microseconds> record_timestamp_;
 
@@ -162,6 +165,16 @@ class FilePersister {
     // std::atomic<end_t> end_;
     current::atomic_that_works<end_t> end_;
 
+    std::streampos RecordOffset(size_t i) const {
+      std::lock_guard<std::mutex> lock(record_offset_mutex_);
+      return record_offset_[i];
+    }
+
+    void AddRecordOffset(std::streampos offset) {
+      std::lock_guard<std::mutex> lock(record_offset_mutex_);
+      record_offset_.push_back(offset);
+    }
+
     FilePersisterImpl() = delete;
     FilePersisterImpl(const FilePersisterImpl&) = delete;
     FilePersisterImpl(FilePersisterImpl&&) = delete;
@@ -364,7 +377,7 @@ class FilePersister {
     // The range-based for-loop works fine. -- D.K.
     std::string operator*() const {
       if (current_entry_.empty()) {
-        const auto offset = file_persister_impl_->record_offset_[static_cast<size_t>(i_)];
+        const auto offset = file_persister_impl_->RecordOffset(static_cast<size_t>(i_));
         if (offset != current_offset_) {
           fi_->seekg(offset, std::ios_base::beg);
           current_offset_ = offset;
@@ -457,7 +470,7 @@ class FilePersister {
     const auto idxts = idxts_t(iterator.next_index, iterator.last_entry_us);
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == iterator.next_index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == iterator.next_index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
+    file_persister_impl_->AddRecordOffset(file_persister_impl_->file_appender_.tellp());
     file_persister_impl_->record_timestamp_.push_back(timestamp);
 
     // Explicit `MakeSureTheRightTypeIsSerialized` is essential, otherwise the `Variant`'s case
@@ -493,7 +506,7 @@ class FilePersister {
     iterator.last_entry_us = iterator.head = idxts.us;
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == idxts.index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == idxts.index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
+    file_persister_impl_->AddRecordOffset(file_persister_impl_->file_appender_.tellp());
     file_persister_impl_->record_timestamp_.push_back(idxts.us);
 
     file_persister_impl_->file_appender_ << raw_log_line << std::endl;
-- 
2.43.0


From 9bda6da327dd4b8158e3847808d92cb6313c62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 14/35] fix: move assignment releases what the handle has
 borrowed before

---
 bricks/sync/owned_borrowed.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 4da6248..7770b50 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -402,7 +402,10 @@ class Borrowed final : public WeakBorrowed<T> {
   Borrowed(Borrowed&& rhs) : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   Borrowed& operator=(Borrowed&& rhs) {
-    base_t::MoveFrom(std::move(rhs), []() {});
+    if (this != &rhs) {
+      base_t::InternalUnRegister();  // Release what has been borrowed before.
+      base_t::MoveFrom(std::move(rhs), []() {});
+    }
     return *this;
   }
 
@@ -450,7 +453,10 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
       : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
-    base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    if (this != &rhs) {
+      base_t::InternalUnRegister();  // Release what has been borrowed before.
+      base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    }
     return *this;
   }
 
-- 
2.43.0


From 475e5063585b25fde10781ba14f2315e343534a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 15/35] fix: a failing second step of a committed two-step
 transaction is reported and does not leave the future hanging

---
 storage/transaction_policy.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/storage/transaction_policy.h b/storage/transaction_policy.h
index ed0ee2c..132d48c 100644
--- a/storage/transaction_policy.h
+++ b/storage/transaction_policy.h
@@ -223,8 +223,13 @@ class Synchronous final {
         f1_result = f1();
         journal_.AfterTransaction();
         PersistJournal();
-        f2(std::move(f1_result));
-        promise.set_value(TransactionResult<void>::Committed(OptionalResultExists()));
+        // The transaction is committed by now, so whatever `f2` throws can not roll it back any more.
+        try {
+          f2(std::move(f1_result));
+          promise.set_value(TransactionResult<void>::Committed(OptionalResultExists()));
+        } catch (...) {
+          promise.set_exception(std::current_exception());
+        }
       } catch (const StorageRollbackExceptionWithValue<result_t>& e) {
         // The transaction was rolled back, but returned a value, which we try to pass again to `f2`.
         journal_.Rollback();
-- 
2.43.0


From 81f9f5d1bb18ad979d8271140a37319a3cea93bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 16/35] fix: becoming the master of a storage does not deadlock
 with the publisher it waits for

---
 storage/persister/stream.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage/persister/stream.h b/storage/persister/stream.h
index 595a50d..aa69d43 100644
--- a/storage/persister/stream.h
+++ b/storage/persister/stream.h
@@ -164,9 +164,11 @@ class StreamStreamPersisterImpl final {
       CURRENT_THROW(StorageIsAlreadyMasterException());
     } else {
       TerminateStreamSubscriptionFromLockedSection();
+      // Take the publisher before locking the mutex: this waits for the borrowers of the publisher to give it up,
+      // and they may well be waiting for that very mutex in order to publish.
+      auto publisher = stream_->BecomeFollowingStream();
       std::lock_guard<std::mutex> lock(stream_publishing_mutex_ref_);
-      publisher_used_ = nullptr;
-      publisher_used_ = stream_->template BecomeFollowingStream<current::locks::MutexLockStatus::AlreadyLocked>();
+      publisher_used_ = std::move(publisher);
       const uint64_t save_replay_index = subscriber_instance_->next_replay_index_;
       subscriber_instance_ = nullptr;
       SyncReplayStreamFromLockedSectionOrConstructor(save_replay_index);
-- 
2.43.0


From 2e97003b1988c5b9a12a5dc5544cadea435a1bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 17/35] fix: lines with zero bytes in them are split in full

---
 bricks/strings/group_by_lines.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bricks/strings/group_by_lines.h b/bricks/strings/group_by_lines.h
index ae25ff0..595baa5 100644
--- a/bricks/strings/group_by_lines.h
+++ b/bricks/strings/group_by_lines.h
@@ -33,6 +33,7 @@ SOFTWARE.
 #include "../template/weed.h"
 #endif  // CURRENT_FOR_CPP14
 
+#include <cstring>
 #include <deque>
 #include <functional>
 #include <string>
@@ -93,8 +94,9 @@ class GenericStatefulGroupByLines final {
 
  public:
   explicit GenericStatefulGroupByLines(F&& f) : f_(std::move(f)) {}
-  void Feed(const std::string& s) { Feed(s.c_str()); }
-  void Feed(const char* s) {
+  void Feed(const std::string& s) { Feed(s.data(), s.data() + s.length()); }
+  void Feed(const char* s) { Feed(s, s + std::strlen(s)); }
+  void Feed(const char* s, const char* const end) {
     if (done_called_) {
       CURRENT_THROW(GroupByLinesFeedCaledAfterDone());
     }
@@ -108,10 +110,10 @@ class GenericStatefulGroupByLines final {
       // the `GenericStatefulGroupByLines` instance is destroyed (in the `E == GroupByLinesExceptions::Prohibit` mode),
       // or the `.Done()` method is called (in the `GroupByLinesExceptions::Allow` mode).
       while (true) {
-        while (*s && *s != '\n') {
+        while (s != end && *s != '\n') {
           residual_ += *s++;
         }
-        if (*s == '\n') {
+        if (s != end) {
           ++s;
           std::string extracted;
           residual_.swap(extracted);
-- 
2.43.0


From 0a6416916e99831afa3c5689f8109402b73ecb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 18/35] fix: setting the done callback of a chunked request
 does not drop its line callbacks

---
 blocks/http/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/http/types.h b/blocks/http/types.h
index 6d311c3..8797c89 100644
--- a/blocks/http/types.h
+++ b/blocks/http/types.h
@@ -129,7 +129,6 @@ struct ChunkedBase {
   }
   T& OnDone(std::function<void()> done_callback) {
     this->done_callback_impl = done_callback;
-    group_by_lines_.clear();
     return static_cast<T&>(*this);
   }
 
@@ -156,6 +155,8 @@ struct ChunkedBase {
   }
 
   void done_callback_wrapper() {
+    // The last line may well not end with a newline; it is complete now.
+    group_by_lines_.clear();
     if (done_callback_impl) {
       done_callback_impl();
     }
-- 
2.43.0


From 5fbe71204fcde1c339ce2e40019d559c3e384571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 19/35] fix: a chunk size which is out of range is a bad
 request and does not terminate the server

---
 bricks/net/http/impl/server.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index 142fb77..7a73671 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -28,6 +28,7 @@ SOFTWARE.
 #include <map>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 #include <vector>
@@ -485,8 +486,12 @@ class GenericHTTPRequestData : public HELPER {
           if (!line_is_blank) {
             const size_t chunk_length = static_cast<size_t>([&]() {
               try {
-                return std::stoi(&buffer_[current_line_offset], nullptr, 16);
-              } catch (const std::invalid_argument&) {
+                const int length = std::stoi(&buffer_[current_line_offset], nullptr, 16);
+                if (length < 0) {
+                  throw std::out_of_range("Negative chunk size.");
+                }
+                return length;
+              } catch (const std::logic_error&) {  // Either `std::invalid_argument` or `std::out_of_range`.
                 // Not a valid hexadecimal chunk size. HTTP bad request is it.
                 HTTPResponder::SendHTTPResponse(c,
                                                 net::DefaultInvalidHEXChunkSizeBadRequestMessage(),
-- 
2.43.0


From 2beafcc3b2fb748f2bf6b8e54e0ee79ea4789bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 20/35] fix: a huge or negative content length does not wrap
 around into an acceptable one

---
 bricks/net/http/impl/server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index 7a73671..debe868 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -25,6 +25,7 @@ SOFTWARE.
 #ifndef BRICKS_NET_HTTP_IMPL_SERVER_H
 #define BRICKS_NET_HTTP_IMPL_SERVER_H
 
+#include <cstdlib>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -567,7 +568,8 @@ class GenericHTTPRequestData : public HELPER {
 
             HELPER::OnHeader(key, value);
             if (HeaderNameEquals(key, constants::kContentLengthHeaderKey)) {
-              body_length = static_cast<size_t>(atoi(value));
+              // `strtoull` does not wrap around: what is too large, or is negative, stays too large.
+              body_length = static_cast<size_t>(std::strtoull(value, nullptr, 10));
               if (body_length > constants::kMaxHTTPPayloadSizeInBytes) {
                 HTTPResponder::SendHTTPResponse(c,
                                                 net::DefaultRequestEntityTooLargeMessage(),
-- 
2.43.0


From bc620f14163490be16ecbf278e107cfc86921e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 21/35] fix: the thread of the HTTP server does not use the
 fields which are not constructed yet

---
 blocks/http/impl/posix_server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 9c087f6..01e853e 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -542,13 +542,15 @@ class HTTPServerPOSIX final {
 
   std::atomic_bool terminating_;
   const uint16_t port_;
-  std::thread thread_;
 
   // TODO(dkorolev): Look into read-write mutexes here.
   mutable std::mutex mutex_;
 
   std::map<std::string, std::map<size_t, Owned<std::function<void(Request)>>>> handlers_;
   std::vector<std::unique_ptr<StaticFileServer>> static_file_servers_;
+
+  // Keep this member last: the thread starts while the object is being constructed, and it uses the fields above.
+  std::thread thread_;
 };
 
 }  // namespace http
-- 
2.43.0


From ab2675e7ae5f9ca59b82eca887547f589b083530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 22/35] fix: assigning headers replaces them and does not leave
 dangling pointers

---
 bricks/net/http/headers/headers.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index dff875a..a51e4b7 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -187,7 +187,11 @@ struct Headers final {
   Headers(const Headers& rhs) { DeepCopyFrom(rhs); }
 
   Headers& operator=(const Headers& rhs) {
-    DeepCopyFrom(rhs);
+    if (this != &rhs) {
+      map.clear();
+      list.clear();
+      DeepCopyFrom(rhs);
+    }
     return *this;
   }
 
-- 
2.43.0


From 23c363f29601b72337803663f8a3f90872af2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 23/35] fix: removing a header by another spelling of its name
 does not leave a dangling pointer

---
 bricks/net/http/headers/headers.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index a51e4b7..bef9142 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -229,14 +229,15 @@ struct Headers final {
     Header::ThrowIfHeaderIsCookie(header);
     const auto cit = map.find(header);
     if (cit != map.end()) {
-      map.erase(cit);
+      const Header* const removed = cit->second.get();
       headers_list_t updated_list;
       for (const auto& e : list) {
-        if (e.first != header) {
-          updated_list.emplace_back(std::move(e));
+        if (e.second != removed) {
+          updated_list.emplace_back(e);
         }
       }
       list = std::move(updated_list);
+      map.erase(cit);
     }
     return *this;
   }
-- 
2.43.0


From c9f221fb079b928c69e326b9a93009667192c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 24/35] fix: cookies with '=' in their values are not lost

---
 bricks/net/http/headers/headers.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index bef9142..3e0d7fa 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -328,8 +328,12 @@ struct Headers final {
 
   // An interface for the HTTP library to populate headers or cookies.
   void ApplyCookieHeader(const std::string& value) {
-    for (const auto& kv : strings::SplitIntoKeyValuePairs(value, '=', ';')) {
-      cookies.emplace(strings::Trim(kv.first), strings::Trim(kv.second));
+    for (const auto& kv : strings::Split(value, ';')) {
+      // The value of a cookie may contain the '=' too.
+      const size_t separator = kv.find('=');
+      if (separator != std::string::npos) {
+        cookies.emplace(strings::Trim(kv.substr(0, separator)), strings::Trim(kv.substr(separator + 1)));
+      }
     }
   }
   void SetHeaderOrCookie(const std::string& header, const std::string& value) {
-- 
2.43.0


From 5bb1d7ade4b51ea9eb44b4acea4b802550c72c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 25/35] fix: URL encoding of bytes above 127

---
 blocks/url/url.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index 4ca959d..a4ff243 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -260,7 +260,7 @@ struct URLParametersExtractor {
       } else if (c == ' ') {
         encoded << "%20";
       } else {
-        encoded << current::strings::Printf("%%%02X", static_cast<int>(c));
+        encoded << current::strings::Printf("%%%02X", static_cast<int>(static_cast<unsigned char>(c)));
       }
     }
     return encoded.str();
-- 
2.43.0


From 383803fbff2accdee74d820a145bc789e339724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 26/35] fix: unregistering a handler does not wait for it while
 holding the mutex it may need

---
 blocks/http/impl/posix_server.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 01e853e..6a15034 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -206,6 +206,10 @@ class HTTPServerPOSIX final {
   }
   // LCOV_EXCL_STOP
 
+  // The handlers to destroy. It takes waiting until they are done with the request they are serving, and, since they
+  // may well be using this very server meanwhile, the mutex of the server should not be held during this wait.
+  using retired_handlers_t = std::vector<Owned<std::function<void(Request)>>>;
+
   // Scoped de-registerer of routes, of its own type.
   struct ScopedRegistererDifferentiator {};
   using HTTPRoutesScope = current::AccumulativeScopedDeleter<ScopedRegistererDifferentiator>;
@@ -225,9 +229,10 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 F& handler) {
+    retired_handlers_t retired;  // Must outlive the lock, see `retired_handlers_t`.
     std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
-        path, [&handler](Request r) { handler(std::move(r)); }, path_args_count_mask, POLICY);
+        path, [&handler](Request r) { handler(std::move(r)); }, path_args_count_mask, POLICY, retired);
   }
 
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt>
@@ -235,27 +240,31 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 std::function<void(Request)> handler) {
+    retired_handlers_t retired;  // Must outlive the lock, see `retired_handlers_t`.
     std::lock_guard<std::mutex> lock(mutex_);
-    return DoRegisterHandler(path, handler, path_args_count_mask, POLICY);
+    return DoRegisterHandler(path, handler, path_args_count_mask, POLICY, retired);
   }
 
   // Two argument version registers handler with no URL path arguments.
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt, typename F>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, F& handler) {
+    retired_handlers_t retired;  // Must outlive the lock, see `retired_handlers_t`.
     std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
-        path, [&handler](Request r) { handler(std::move(r)); }, URLPathArgs::CountMask::None, POLICY);
+        path, [&handler](Request r) { handler(std::move(r)); }, URLPathArgs::CountMask::None, POLICY, retired);
   }
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, std::function<void(Request)> handler) {
+    retired_handlers_t retired;  // Must outlive the lock, see `retired_handlers_t`.
     std::lock_guard<std::mutex> lock(mutex_);
-    return DoRegisterHandler(path, handler, URLPathArgs::CountMask::None, POLICY);
+    return DoRegisterHandler(path, handler, URLPathArgs::CountMask::None, POLICY, retired);
   }
 
   void UnRegister(const std::string& path,
                   const URLPathArgs::CountMask path_args_count_mask = URLPathArgs::CountMask::None) {
+    retired_handlers_t retired;  // Must outlive the lock, see `retired_handlers_t`.
     std::lock_guard<std::mutex> lock(mutex_);
     URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
     for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
@@ -269,6 +278,7 @@ class HTTPServerPOSIX final {
         if (it2 == map.end()) {
           CURRENT_THROW(HandlerDoesNotExistException(path));
         }
+        retired.push_back(std::move(it2->second));
         map.erase(it2);
         if (map.empty()) {
           // Maintain the value of `PathHandlersCount()` invariant.
@@ -489,7 +499,8 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry DoRegisterHandler(const std::string& path,
                                          std::function<void(Request)> handler,
                                          const URLPathArgs::CountMask path_args_count_mask,
-                                         const ReRegisterRoute policy) {
+                                         const ReRegisterRoute policy,
+                                         retired_handlers_t& retired) {
     // LCOV_EXCL_START
     if (static_cast<uint16_t>(path_args_count_mask) == 0) {
       return HTTPRoutesScopeEntry();
@@ -526,7 +537,13 @@ class HTTPServerPOSIX final {
       URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
       for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask = mask << 1) {
         if ((path_args_count_mask & mask) == mask) {
-          handlers_per_path[i] = MakeOwned<std::function<void(Request)>>(handler);
+          auto new_handler = MakeOwned<std::function<void(Request)>>(handler);
+          const auto existing = handlers_per_path.find(i);
+          if (existing != handlers_per_path.end()) {
+            retired.push_back(std::move(existing->second));
+            handlers_per_path.erase(existing);
+          }
+          handlers_per_path.emplace(i, std::move(new_handler));
         }
       }
     }
-- 
2.43.0


From 5585fae262ce3d4184b2db6b1b2162ceca40bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:48 +0000
Subject: [PATCH 27/35] fix: a subscription over HTTP completes its response,
 and survives a client which has gone

---
 stream/pubsub.h | 51 +++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 34e6045..e137bbb 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -331,12 +331,8 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       }
       return ss::EntryResponse::More;
     }();
-    if (result == ss::EntryResponse::Done && params_.array) {
-      if (!output_started_) {
-        http_response_("[]\n");
-      } else {
-        http_response_("]\n");
-      }
+    if (result == ss::EntryResponse::Done) {
+      FinishOutput();
     }
     return result;
   }
@@ -417,22 +413,14 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       return ss::EntryResponse::More;
     }();
     if (result == ss::EntryResponse::Done) {
-      if (params_.array) {
-        if (!output_started_) {
-          http_response_("[]\n");
-        } else {
-          http_response_("]\n");
-        }
-      } else {
-        // flush cached response data.
-        http_response_("", current::net::ChunkFlush::Flush);
-      }
+      FinishOutput();
     }
     return result;
   }
 
   ss::EntryResponse operator()(std::chrono::microseconds us) {
     if (time_to_terminate_) {
+      FinishOutput();
       return ss::EntryResponse::Done;
     }
     // Respect `since` and `recent`.
@@ -446,10 +434,15 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       }
       // Stop serving if the limit on timestamp is exceeded.
       if (to_timestamp_.count() && us > to_timestamp_) {
+        FinishOutput();
         return ss::EntryResponse::Done;
       }
       if (!params_.array && !params_.entries_only) {
-        http_response_(JSON<J>(ts_only_t(us)) + '\n');
+        try {
+          http_response_(JSON<J>(ts_only_t(us)) + '\n');
+        } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
+          return ss::EntryResponse::Done;                  // LCOV_EXCL_LINE
+        }
       }
     }
     return ss::EntryResponse::More;
@@ -464,16 +457,32 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
   // LCOV_EXCL_START
   ss::TerminationResponse Terminate() {
     static const std::string message = "{\"error\":\"The subscriber has terminated.\"}\n";
-    if (params_.array && output_started_) {
-      http_response_(",\n" + message + "]\n");
-    } else {
-      http_response_(message);
+    try {
+      if (params_.array && output_started_) {
+        http_response_(",\n" + message + "]\n");
+      } else {
+        http_response_(message);
+      }
+    } catch (const current::net::NetworkException&) {
     }
     return ss::TerminationResponse::Terminate;
   }
   // LCOV_EXCL_STOP
 
  private:
+  // Completes the output. The client may have disconnected, and no exception should leave the subscriber thread.
+  void FinishOutput() {
+    try {
+      if (params_.array) {
+        http_response_(output_started_ ? "]\n" : "[]\n");
+      } else {
+        // flush cached response data.
+        http_response_("", current::net::ChunkFlush::Flush);
+      }
+    } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
+    }                                                  // LCOV_EXCL_LINE
+  }
+
   // The HTTP listener must register itself as a user of stream data to ensure the lifetime of stream data.
   const BorrowedWithCallback<impl_t> impl_;
   std::atomic_bool time_to_terminate_{false};
-- 
2.43.0


From 4b88bd87c67ff50cce0c61794079b354da559560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:48 +0000
Subject: [PATCH 28/35] fix: a subscription over HTTP with both i and since
 does not begin before i

---
 stream/stream.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 44102ce..7259f6a 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -570,12 +570,13 @@ class Stream final {
           const uint64_t idx_by_tail = request_params.tail < stream_size ? (stream_size - request_params.tail) : 0u;
           begin_idx = std::max(request_params.i, idx_by_tail);
         }
-      } else if (request_params.recent.count() > 0) {
-        from_timestamp = r.timestamp - request_params.recent;
-      } else if (request_params.since.count() > 0) {
-        from_timestamp = request_params.since;
       } else {
         begin_idx = request_params.i;
+        if (request_params.recent.count() > 0) {
+          from_timestamp = r.timestamp - request_params.recent;
+        } else if (request_params.since.count() > 0) {
+          from_timestamp = request_params.since;
+        }
       }
 
       if (from_timestamp.count() > 0) {
-- 
2.43.0


From 5b1644b7acb794c75c0f259a930760e1d3961e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:48 +0000
Subject: [PATCH 29/35] fix: the timestamp of the last entry is not sent as an
 update of the head, which made followers reconnect forever

---
 stream/stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream/stream.h b/stream/stream.h
index 7259f6a..644d98a 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -407,7 +407,10 @@ class Stream final {
             index = size;
             head = Value(head_idx.idxts).us;
           }
-          if (size >= begin_idx && head_idx.head > head && subscriber_(head_idx.head) == ss::EntryResponse::Done) {
+          // The timestamp of the last entry is not an update of the head.
+          const bool head_updated = !Exists(head_idx.idxts) || head_idx.head > Value(head_idx.idxts).us;
+          if (size >= begin_idx && head_updated && head_idx.head > head &&
+              subscriber_(head_idx.head) == ss::EntryResponse::Done) {
             return;
           }
           head = head_idx.head;
-- 
2.43.0


From 5c77d7a86d6406d1aaeb505a42ef526a27c2698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:55 +0000
Subject: [PATCH 30/35] fix: terminating a remote subscription does not hang if
 the request to terminate it fails

---
 stream/replicator.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 21a7537..e30cf99 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -333,22 +333,27 @@ class SubscribableRemoteStream final {
     }
 
     void TerminateSubscription() {
-      subscription_id_.Wait([this](const std::string& subscription_id) {
-        if (subscriber_thread_done_) {
-          return true;
-        } else {
+      while (true) {
+        std::string id;
+        subscription_id_.Wait([this, &id](const std::string& subscription_id) {
           terminate_subscription_requested_ = true;
-          if (!subscription_id.empty()) {
-            const std::string terminate_url = this->borrowed_remote_stream_->GetURLToTerminate(subscription_id);
-            try {
-              HTTP(GET(terminate_url));
-            } catch (current::Exception&) {
-            }
-            return true;
+          id = subscription_id;
+          return subscriber_thread_done_ || !id.empty();
+        });
+        if (subscriber_thread_done_) {
+          return;
+        }
+        try {
+          if (HTTP(GET(this->borrowed_remote_stream_->GetURLToTerminate(id))).code == HTTPResponseCode.OK) {
+            return;
           }
+        } catch (current::Exception&) {
         }
-        return false;
-      });
+        // The request may have been lost, or the remote stream may be yet to register this very subscription. Try again.
+        subscription_id_.WaitFor(
+            [this, &id](const std::string& subscription_id) { return subscriber_thread_done_ || subscription_id != id; },
+            std::chrono::milliseconds(10));
+      }
     }
 
    private:
-- 
2.43.0


From 2e6815da48900a4039b24a9eae0188dd05ad086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:55 +0000
Subject: [PATCH 31/35] fix: a replicator which is told of the head it is
 already at does not reconnect

---
 stream/replicator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index e30cf99..11e4c88 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -483,7 +483,11 @@ struct StreamReplicatorImpl {
   }
 
   EntryResponse operator()(std::chrono::microseconds ts) {
-    Value(publisher_)->UpdateHead(ts);
+    try {
+      Value(publisher_)->UpdateHead(ts);
+    } catch (const current::ss::InconsistentTimestampException&) {
+      // It is no news that the head is where this stream already is. Do not reconnect just to be told so again.
+    }
     return EntryResponse::More;
   }
 
-- 
2.43.0


From 52749a98237b9ed0319f0e213ff62d6c44f2c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 32/35] fix: MasterFlipController: limit the number of entries
 an empty follower may be behind, too

---
 stream/replicator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 11e4c88..91d8ea4 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -744,7 +744,8 @@ class MasterFlipController final {
     const auto max_diff_size = restrictions.max_diff_size_;
     const auto max_head_diff = restrictions.max_head_diff_;
 
-    if (max_index_diff != 0 && start_idx != 0 && Value(head_idxts.idxts).index >= start_idx + max_index_diff) {
+    if (max_index_diff != 0 && Exists(head_idxts.idxts) &&
+        Value(head_idxts.idxts).index >= start_idx + max_index_diff) {
       r("Too many entries to replay, aborting sending the diff.\n", HTTPResponseCode.BadRequest);
       return false;
     }
-- 
2.43.0


From 2e1ece150bf5b63455280fcc08189b36eb3b8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 33/35] fix: MasterFlipController: FlipToMaster and
 FollowRemoteStream look at the follower under the lock

---
 stream/replicator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 91d8ea4..0e5d86d 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -584,11 +584,11 @@ class MasterFlipController final {
 
   // Makes the local, owned, ex-master stream follow the remote now-master one.
   void FollowRemoteStream(const std::string& url, SubscriptionMode subscription_mode = SubscriptionMode::Unchecked) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (remote_follower_) {
       CURRENT_THROW(StreamIsAlreadyFollowingException());
     }
 
-    std::lock_guard<std::mutex> lock(mutex_);
     const bool has_borrowed_publisher = Exists(borrowed_publisher_);
     try {
       remote_follower_ = std::make_unique<RemoteStreamFollower>(
@@ -611,6 +611,7 @@ class MasterFlipController final {
   }
 
   void FlipToMaster(uint64_t secret_flip_key) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (stream_->IsMasterStream()) {
       CURRENT_THROW(StreamIsAlreadyMasterException());
     }
-- 
2.43.0


From 9f7ecbae6429e1e40a071f383b7ed1a791db94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:45 +0000
Subject: [PATCH 34/35] fix: RipCurrent: messages emitted from different
 threads into the same block are not refused, and keep their order

---
 ripcurrent/ripcurrent.h | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/ripcurrent/ripcurrent.h b/ripcurrent/ripcurrent.h
index ab60867..4ea26e0 100644
--- a/ripcurrent/ripcurrent.h
+++ b/ripcurrent/ripcurrent.h
@@ -227,6 +227,8 @@ class GenericBlockOutgoingInterface {
  public:
   virtual ~GenericBlockOutgoingInterface() = default;
   virtual void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) = 0;
+  // Same as above, at the present time, which is to be taken only once no other call can get ahead of this one.
+  virtual void OnThreadUnsafeEmittedNow(movable_message_t&&) = 0;
   virtual void OnThreadUnsafeScheduled(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeHeadUpdated(std::chrono::microseconds) = 0;
 };
@@ -245,6 +247,10 @@ class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<>> : public GenericBlockO
     std::cerr << "Not expecting any entries from a non-emitting block.\n";
     CURRENT_ASSERT(false);
   }
+  void OnThreadUnsafeEmittedNow(movable_message_t&&) override {
+    std::cerr << "Not expecting any entries from a non-emitting block.\n";
+    CURRENT_ASSERT(false);
+  }
   void OnThreadUnsafeScheduled(movable_message_t&&, std::chrono::microseconds) override {
     std::cerr << "Not expecting any entries from a non-emitting block.\n";
     CURRENT_ASSERT(false);
@@ -492,8 +498,7 @@ class CallsGeneratingBlock<EmittableTypes<EMITTED_TYPES...>> : public GenericCal
   template <typename T, typename... ARGS>
   std::enable_if_t<TypeListContains<TypeListImpl<EMITTED_TYPES...>, T>::value> emit(ARGS&&... args) const {
     // A seemingly unnecessary `release()` is due to `std::make_unique()` not supporting a custom deleter. -- D.K
-    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()),
-                                    time::Now());
+    handler_->OnThreadUnsafeEmittedNow(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()));
   }
 
   template <typename T, typename... ARGS>
@@ -713,15 +718,11 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
       }
 
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
-        waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportPublishCalled(); });
-        try {
-          mmpq_.UpdateHead(t);  // Run `UpdateHead` before `Publish`, as the latter does not validate monotocinity.
-          mmpq_.Publish(std::move(x), t);
-          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessagePublished(); });
-        } catch (const ss::InconsistentTimestampException& e) {
-          current::Singleton<RipCurrentMockableErrorHandler>().HandleError(e.DetailedDescription());
-          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessageNotPublished(); });
-        }
+        Emit(std::move(x), [t]() { return t; });
+      }
+
+      void OnThreadUnsafeEmittedNow(movable_message_t&& x) override {
+        Emit(std::move(x), []() { return time::Now(); });
       }
 
       void OnThreadUnsafeScheduled(movable_message_t&& x, std::chrono::microseconds t) override {
@@ -737,6 +738,7 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
 
       void OnThreadUnsafeHeadUpdated(std::chrono::microseconds t) override {
         try {
+          std::lock_guard<std::mutex> lock(head_mutex_);
           mmpq_.UpdateHead(t);
         } catch (const ss::InconsistentTimestampException& e) {
           current::Singleton<RipCurrentMockableErrorHandler>().HandleError(e.DetailedDescription());
@@ -744,6 +746,23 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
       }
 
      private:
+      // The blocks on the left hand side may run in different threads. To have their messages accepted, and processed,
+      // in order, taking the timestamp, moving the head, and publishing the message should not be interleaved.
+      template <typename F>
+      void Emit(movable_message_t&& x, F&& timestamp) {
+        waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportPublishCalled(); });
+        try {
+          std::lock_guard<std::mutex> lock(head_mutex_);
+          const std::chrono::microseconds t = timestamp();
+          mmpq_.UpdateHead(t);  // Run `UpdateHead` before `Publish`, as the latter does not validate monotocinity.
+          mmpq_.Publish(std::move(x), t);
+          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessagePublished(); });
+        } catch (const ss::InconsistentTimestampException& e) {
+          current::Singleton<RipCurrentMockableErrorHandler>().HandleError(e.DetailedDescription());
+          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessageNotPublished(); });
+        }
+      }
+
       class ThreadMessageCounters {
        public:
         void ReportPublishCalled() { ++publish_called_count_; }
@@ -775,6 +794,7 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         std::shared_ptr<BlockIncomingInterface<ThreadSafeIncomingTypes<VIA_X, VIA_XS...>>> next_;
       };
 
+      std::mutex head_mutex_;
       WaitableAtomic<ThreadMessageCounters> waitable_counters_;
       current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t> single_threaded_processor_;
       mmq::MMPQ<movable_message_t, current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t>> mmpq_;
@@ -899,6 +919,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
+      void OnThreadUnsafeEmittedNow(movable_message_t&& x) override { next->OnThreadUnsafeEmittedNow(std::move(x)); }
       void OnThreadUnsafeScheduled(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeScheduled(std::move(x), t);
       }
@@ -910,6 +931,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
+      void OnThreadUnsafeEmittedNow(movable_message_t&& x) override { next->OnThreadUnsafeEmittedNow(std::move(x)); }
       void OnThreadUnsafeScheduled(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeScheduled(std::move(x), t);
       }
-- 
2.43.0


From 564ddf11736fa62c8e5bee94f2ee460b7ded8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 35/35] fix: hypermedia REST: a page size too large to count to
 is not an error and hides nothing

---
 storage/rest/hypermedia.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/rest/hypermedia.h b/storage/rest/hypermedia.h
index a0aa1bd..eb3a966 100644
--- a/storage/rest/hypermedia.h
+++ b/storage/rest/hypermedia.h
@@ -124,7 +124,7 @@ struct HypermediaResponseFormatter {
     bool has_previous_page = false;
     bool has_next_page = false;
     uint64_t current_index = 0;
-    response.data.reserve(static_cast<size_t>(context.query_n));
+    response.data.reserve(static_cast<size_t>(std::min<uint64_t>(context.query_n, total)));
     for (auto iterator = span.begin(); iterator != span.end(); ++iterator) {
       using iterator_t = decltype(iterator);
       // NOTE(dkorolev): This `iterator` can be of more than three different kinds, among which are:
@@ -134,7 +134,8 @@ struct HypermediaResponseFormatter {
       //    where SE stands for SingleElement.
       // 4) GenericMapAccessor<>.
       // To keep the generic code generic, it's accesses as `iterator`, not via a range-based loop.
-      if (current_index >= context.query_i && current_index < context.query_i + context.query_n) {
+      // NOTE: `query_i + query_n` is not computed, as it may overflow.
+      if (current_index >= context.query_i && current_index - context.query_i < context.query_n) {
         response.data.resize(response.data.size() + 1);
         collection_element_t& record = response.data.back();
 
@@ -143,7 +144,7 @@ struct HypermediaResponseFormatter {
             record.DataOrBriefByRef(), iterator);
       } else if (current_index < context.query_i) {
         has_previous_page = true;
-      } else if (current_index >= context.query_i + context.query_n) {
+      } else if (current_index - context.query_i >= context.query_n) {
         has_next_page = true;
         break;
       }
-- 
2.43.0

