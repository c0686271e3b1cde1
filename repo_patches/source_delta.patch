From 6b27d7ad22201665bb51c12bfd5eabf8991d1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 01/88] fix: FilePersister unsafe iterator read record offsets
 without the publish mutex

---
 blocks/persistence/file.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index f74387d..5634dd3 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -346,7 +346,7 @@ class FilePersister {
                    uint64_t i,
                    std::streampos offset,
                    uint64_t)
-        : file_persister_impl_(std::move(file_persister_impl)), i_(i), current_offset_(offset) {
+        : file_persister_impl_(std::move(file_persister_impl)), i_(i), next_i_(i) {
       if (!filename.empty()) {
         fi_ = std::make_unique<std::ifstream>(filename);
         CURRENT_ASSERT(!fi_->bad());
@@ -360,17 +360,16 @@ class FilePersister {
     // The range-based for-loop works fine. -- D.K.
     std::string operator*() const {
       if (current_entry_.empty()) {
-        const auto offset = file_persister_impl_->record_offset_[static_cast<size_t>(i_)];
-        if (offset != current_offset_) {
-          fi_->seekg(offset, std::ios_base::beg);
-          current_offset_ = offset;
-        }
-        if (std::getline(*fi_, current_entry_)) {
-          CURRENT_ASSERT(current_entry_[0] != constants::kDirectiveMarker);
-        } else {
-          // End of file. Should never happen as long as the user only iterates over valid ranges.
-          CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
-        }
+        // Read forward, skipping the directives. No looking into `record_offset_`, as it is guarded by the publish mutex.
+        do {
+          if (!std::getline(*fi_, current_entry_)) {
+            // End of file. Should never happen as long as the user only iterates over valid ranges.
+            CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
+          }
+          if (current_entry_[0] != constants::kDirectiveMarker) {
+            ++next_i_;
+          }
+        } while (next_i_ <= i_);
       }
       return current_entry_;
     }
@@ -390,7 +389,7 @@ class FilePersister {
     std::unique_ptr<std::ifstream> fi_;
     uint64_t i_;
     mutable std::string current_entry_;
-    mutable std::streampos current_offset_;
+    mutable uint64_t next_i_;  // The index of the next entry to be read from `fi_`.
   };
 
   template <typename ITERATOR>
-- 
2.43.0


From 84fed515a6965166c18c2ed5107bf5f825fde7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 02/88] fix: MemoryPersister raced with its readers when called
 with the publish mutex already locked

---
 blocks/persistence/memory.h | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index a7c45fa..d6f748d 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -61,18 +61,17 @@ class MemoryPersister {
   struct Container {
     using entry_t = std::pair<std::chrono::microseconds, ENTRY>;
 
-    mutable std::mutex memory_persister_container_mutex_;
+    std::mutex& publish_mutex_ref_;
+    mutable std::mutex memory_persister_container_mutex_;  // Always locked when accessing the fields below.
     std::deque<entry_t> entries_;
     std::chrono::microseconds head_ = std::chrono::microseconds(-1);
 
-    explicit Container(std::mutex& unused_publish_mutex_ref) {
-      static_cast<void>(unused_publish_mutex_ref);  // `MemoryPersister` is not mutex-efficient. -- D.K.
-    }
+    explicit Container(std::mutex& publish_mutex_ref) : publish_mutex_ref_(publish_mutex_ref) {}
   };
 
  public:
-  MemoryPersister(std::mutex& unused_publish_mutex_ref, const ss::StreamNamespaceName&)
-      : container_(MakeOwned<Container>(unused_publish_mutex_ref)) {}
+  MemoryPersister(std::mutex& publish_mutex_ref, const ss::StreamNamespaceName&)
+      : container_(MakeOwned<Container>(publish_mutex_ref)) {}
 
   class Iterator {
    public:
@@ -153,7 +152,8 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename E, typename TIMESTAMP>
   idxts_t PersisterPublishImpl(E&& entry, const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    current::locks::SmartMutexLockGuard<MLS> publish_lock(container_->publish_mutex_ref_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     if (!(timestamp > head)) {
@@ -168,7 +168,8 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterPublishUnsafeImpl(const std::string& raw_log_line) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    current::locks::SmartMutexLockGuard<MLS> publish_lock(container_->publish_mutex_ref_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto tab_pos = raw_log_line.find('\t');
     if (tab_pos == std::string::npos) {
@@ -190,7 +191,8 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename TIMESTAMP>
   void PersisterUpdateHeadImpl(const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    current::locks::SmartMutexLockGuard<MLS> publish_lock(container_->publish_mutex_ref_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
 
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     const auto head = container_->head_;
@@ -202,19 +204,19 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   bool PersisterEmptyImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->entries_.empty();
   }
 
   template <current::locks::MutexLockStatus MLS>
   uint64_t PersisterSizeImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return static_cast<uint64_t>(container_->entries_.size());
   }
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return idxts_t(container_->entries_.size() - 1, container_->entries_.back().first);
@@ -225,7 +227,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   head_optidxts_t PersisterHeadAndLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return head_optidxts_t(container_->head_, container_->entries_.size() - 1, container_->entries_.back().first);
@@ -236,14 +238,14 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds PersisterCurrentHeadImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->head_;
   }
 
   template <current::locks::MutexLockStatus MLS>
   std::pair<uint64_t, uint64_t> PersisterIndexRangeByTimestampRangeImpl(std::chrono::microseconds from,
                                                                         std::chrono::microseconds till) const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     std::pair<uint64_t, uint64_t> result{static_cast<uint64_t>(-1), static_cast<uint64_t>(-1)};
     const auto begin_it =
         std::lower_bound(container_->entries_.begin(),
@@ -293,7 +295,7 @@ class MemoryPersister {
   template <current::locks::MutexLockStatus MLS, typename ITERABLE>
   ITERABLE PersisterIterateImpl(uint64_t begin, uint64_t end) const {
     const uint64_t size = [this]() {
-      current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+      std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
       return static_cast<uint64_t>(container_->entries_.size());
     }();
 
-- 
2.43.0


From b177f913e129141b3ea669af6c87de9378e121f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 03/88] fix: FilePersister acknowledged records it failed to
 write

---
 blocks/persistence/file.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 5634dd3..dfea424 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -177,7 +177,7 @@ class FilePersister {
           publish_mutex_ref_(publish_mutex_ref),
           head_offset_(0) {
       ValidateFileAndInitializeHead(namespace_name);
-      if (file_appender_.bad() || head_rewriter_.bad()) {
+      if (file_appender_.fail() || head_rewriter_.fail()) {
         CURRENT_THROW(PersistenceFileNotWritable(filename));
       }
     }
@@ -452,8 +452,7 @@ class FilePersister {
     const auto idxts = idxts_t(iterator.next_index, iterator.last_entry_us);
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == iterator.next_index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == iterator.next_index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
-    file_persister_impl_->record_timestamp_.push_back(timestamp);
+    const std::streampos offset = file_persister_impl_->file_appender_.tellp();
 
     // Explicit `MakeSureTheRightTypeIsSerialized` is essential, otherwise the `Variant`'s case
     // would be serialized in an unwrapped way when passed directly.
@@ -461,6 +460,11 @@ class FilePersister {
                                          << JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(
                                                 std::forward<E>(entry)))
                                          << std::endl;
+    if (file_persister_impl_->file_appender_.fail()) {
+      CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+    }
+    file_persister_impl_->record_offset_.push_back(offset);
+    file_persister_impl_->record_timestamp_.push_back(timestamp);
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -488,10 +492,14 @@ class FilePersister {
     iterator.last_entry_us = iterator.head = idxts.us;
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == idxts.index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == idxts.index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
-    file_persister_impl_->record_timestamp_.push_back(idxts.us);
+    const std::streampos offset = file_persister_impl_->file_appender_.tellp();
 
     file_persister_impl_->file_appender_ << raw_log_line << std::endl;
+    if (file_persister_impl_->file_appender_.fail()) {
+      CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+    }
+    file_persister_impl_->record_offset_.push_back(offset);
+    file_persister_impl_->record_timestamp_.push_back(idxts.us);
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -514,11 +522,18 @@ class FilePersister {
       auto& rewriter = file_persister_impl_->head_rewriter_;
       rewriter.seekp(file_persister_impl_->head_offset_, std::ios_base::beg);
       rewriter << head_str << std::endl;
+      if (rewriter.fail()) {
+        CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+      }
     } else {
       auto& file_appender_ = file_persister_impl_->file_appender_;
       file_appender_ << constants::kHeadDirective << ' ';
-      file_persister_impl_->head_offset_ = file_appender_.tellp();
+      const std::streampos head_offset = file_appender_.tellp();
       file_appender_ << head_str << std::endl;
+      if (file_appender_.fail()) {
+        CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+      }
+      file_persister_impl_->head_offset_ = head_offset;
     }
     file_persister_impl_->end_.store(iterator);
   }
-- 
2.43.0


From 53c357da4daa3396a05b055a398c7290b0d66753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 04/88] fix: FilePersister glued new records to the incomplete
 last line left by a crash

---
 blocks/persistence/file.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index dfea424..4510422 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -32,6 +32,7 @@ SOFTWARE.
 #define BLOCKS_PERSISTENCE_FILE_H
 
 #include <atomic>
+#include <filesystem>
 #include <fstream>
 #include <functional>
 
@@ -171,7 +172,7 @@ class FilePersister {
     FilePersisterImpl(std::mutex& publish_mutex_ref,
                       const ss::StreamNamespaceName& namespace_name,
                       const std::string& filename)
-        : filename_(filename),
+        : filename_(DropUnterminatedLastLine(filename)),
           file_appender_(filename, std::ofstream::app | std::ofstream::ate),
           head_rewriter_(filename, std::ofstream::in | std::ofstream::out),
           publish_mutex_ref_(publish_mutex_ref),
@@ -182,6 +183,29 @@ class FilePersister {
       }
     }
 
+    // A crash or a failed write may leave the last line of the file incomplete. Such an entry or directive has not been
+    // reported as published. Get rid of it, as otherwise the next record would be appended to the very same line.
+    static const std::string& DropUnterminatedLastLine(const std::string& filename) {
+      std::ifstream fi(filename, std::ifstream::binary | std::ifstream::ate);
+      const std::streamoff size = fi.tellg();
+      std::streamoff offset = size;
+      while (offset > 0 && fi.seekg(offset - 1) && fi.get() != '\n') {
+        --offset;
+      }
+      if (offset < size) {
+        std::string line;
+        fi.seekg(offset);
+        std::getline(fi, line);
+        fi.close();
+        // Only touch what may well be the beginning of an entry or of a directive.
+        if (line[0] == constants::kDirectiveMarker || !std::string("{\"index\":").compare(0, line.length(), line, 0, 9)) {
+          std::error_code error;
+          std::filesystem::resize_file(filename, static_cast<std::uintmax_t>(offset), error);
+        }
+      }
+      return filename;
+    }
+
     // Replay the file but ignore its contents. Used to initialize `end_` at startup.
     void ValidateFileAndInitializeHead(const ss::StreamNamespaceName& namespace_name) {
       std::ifstream fi(filename_);
-- 
2.43.0


From f1a2d15b07ac62065c16535993d39f371706496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 05/88] fix: UniqueInstance notified its condition variable
 after releasing the mutex, racing with the destructor

---
 bricks/sync/owned_borrowed.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 0c5efe0..888ecf8 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -127,15 +127,12 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    bool notify = false;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      auto it = borrowers_.find(borrower_index);
-      CURRENT_ASSERT(it != borrowers_.end());
-      borrowers_.erase(it);
-      notify = borrowers_.empty();
-    }
-    if (notify) {
+    // Must notify from the locked section: once the mutex is released, the destructor is free to destroy `*this`.
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = borrowers_.find(borrower_index);
+    CURRENT_ASSERT(it != borrowers_.end());
+    borrowers_.erase(it);
+    if (borrowers_.empty()) {
       condition_variable_.notify_one();
     }
   }
-- 
2.43.0


From 43dabc6805f0cd07a8e959129f2ddcb2360b80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 06/88] fix: IntrusiveImpl notified its condition variable
 after releasing the mutex, racing with the destructor

---
 bricks/sync/waitable_atomic.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 02bf49b..a5eca57 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -324,23 +324,20 @@ class WaitableAtomicImpl {
     IntrusiveClient RegisterScopedClient() { return IntrusiveClient(this); }
 
     virtual bool RefCounterTryIncrease() override {
-      {
-        std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
-        if (destructing_) {
-          return false;
-        } else {
-          ++ref_count_;
-        }
+      std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
+      if (destructing_) {
+        return false;
+      } else {
+        ++ref_count_;
       }
       cv_.notify_one();
       return true;
     }
 
     virtual void RefCounterDecrease() override {
-      {
-        std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
-        --ref_count_;
-      }
+      // Must notify from the locked section: once the mutex is released, the destructor is free to destroy `*this`.
+      std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
+      --ref_count_;
       cv_.notify_one();
     }
 
-- 
2.43.0


From 4caf6545402efc93683cb9df485e0d6180700a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 07/88] fix: move-assigning a Borrowed did not release what it
 had borrowed before, hanging the owner's destructor

---
 bricks/sync/owned_borrowed.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 888ecf8..250567a 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -401,7 +401,10 @@ class Borrowed final : public WeakBorrowed<T> {
   Borrowed(Borrowed&& rhs) : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   Borrowed& operator=(Borrowed&& rhs) {
-    base_t::MoveFrom(std::move(rhs), []() {});
+    if (this != &rhs) {
+      base_t::InternalUnRegister();  // Release what has been borrowed so far, otherwise its owner waits forever.
+      base_t::MoveFrom(std::move(rhs), []() {});
+    }
     return *this;
   }
 
@@ -449,7 +452,10 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
       : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
-    base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    if (this != &rhs) {
+      base_t::InternalUnRegister();  // Release what has been borrowed so far, otherwise its owner waits forever.
+      base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    }
     return *this;
   }
 
-- 
2.43.0


From 25bc2d1ab3814b0eb85dea5e4c7e96b8270797f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 08/88] fix: UniqueInstance could call the destruction callback
 of a borrower that was already gone

---
 bricks/sync/owned_borrowed.h | 47 +++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 250567a..49bf5e5 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -59,7 +59,7 @@ SOFTWARE.
 #include <map>
 #include <memory>
 #include <mutex>
-#include <vector>
+#include <thread>
 
 #include "../exception.h"
 
@@ -92,25 +92,28 @@ struct UniqueInstance final {
     // Mark the instance of the object as being destructed.
     destructing_ = true;
 
-    // Collect all the "destructing" callbacks to call.
-    std::vector<std::function<void()>> callbacks_to_call;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      for (const auto& cit : borrowers_) {
-        callbacks_to_call.push_back(cit.second);
+    std::unique_lock<std::mutex> lock(mutex_);
+
+    // Call the "destructing" callbacks of the borrowers that have registered by now and are not gone yet.
+    // The mutex is not locked during the call, it is `UnRegisterBorrower` that keeps the borrower alive until it is over.
+    thread_calling_callbacks_ = std::this_thread::get_id();
+    const size_t last_borrower_to_call = total_borrowers_spawned_throughout_lifetime_;
+    for (auto it = borrowers_.begin(); it != borrowers_.end() && it->first <= last_borrower_to_call;) {
+      const size_t borrower_index = it->first;
+      borrower_being_called_ = borrower_index;
+      {
+        const std::function<void()> callback = it->second;
+        lock.unlock();
+        callback();
       }
-    }
-
-    // Call all the "destructing" callbacks.
-    for (auto& f : callbacks_to_call) {
-      f();
+      lock.lock();
+      borrower_being_called_ = 0u;
+      condition_variable_.notify_all();
+      it = borrowers_.upper_bound(borrower_index);
     }
 
     // Wait until all the borrowers have terminated.
-    {
-      std::unique_lock<std::mutex> lock(mutex_);
-      condition_variable_.wait(lock, [this]() { return borrowers_.empty(); });
-    }
+    condition_variable_.wait(lock, [this]() { return borrowers_.empty(); });
   }
 
   // Register ("increase the ref-count") a newly spawned borrower, along with its termination signal callback.
@@ -127,13 +130,17 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    // Must notify from the locked section: once the mutex is released, the destructor is free to destroy `*this`.
-    std::lock_guard<std::mutex> lock(mutex_);
+    std::unique_lock<std::mutex> lock(mutex_);
+    // If the callback of this very borrower is being called from another thread, the borrower should outlive that call.
+    condition_variable_.wait(lock, [this, borrower_index]() {
+      return borrower_being_called_ != borrower_index || thread_calling_callbacks_ == std::this_thread::get_id();
+    });
     auto it = borrowers_.find(borrower_index);
     CURRENT_ASSERT(it != borrowers_.end());
     borrowers_.erase(it);
+    // Must notify from the locked section: once the mutex is released, the destructor is free to destroy `*this`.
     if (borrowers_.empty()) {
-      condition_variable_.notify_one();
+      condition_variable_.notify_all();
     }
   }
 
@@ -148,6 +155,8 @@ struct UniqueInstance final {
   std::condition_variable condition_variable_;          // The variable to notify as all the borrowers are gone.
   std::map<size_t, std::function<void()>> borrowers_;   // Map of live borrower -> termination signal callback.
   size_t total_borrowers_spawned_throughout_lifetime_;  // A pre-increment of this value is the key in the above map.
+  size_t borrower_being_called_ = 0u;                   // The borrower whose callback is being called, zero if none.
+  std::thread::id thread_calling_callbacks_;            // The thread that is running the destructor.
 };
 
 }  // namespace impl
-- 
2.43.0


From 531b90b3559cc944cea03423c1320167aceabab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 09/88] fix: an HTTP subscriber that has disconnected brought
 the whole process down on the next head update or at the end of its
 subscription

---
 stream/pubsub.h | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 34e6045..1767c42 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -332,10 +332,13 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       return ss::EntryResponse::More;
     }();
     if (result == ss::EntryResponse::Done && params_.array) {
-      if (!output_started_) {
-        http_response_("[]\n");
-      } else {
-        http_response_("]\n");
+      try {
+        if (!output_started_) {
+          http_response_("[]\n");
+        } else {
+          http_response_("]\n");
+        }
+      } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
       }
     }
     return result;
@@ -417,15 +420,18 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       return ss::EntryResponse::More;
     }();
     if (result == ss::EntryResponse::Done) {
-      if (params_.array) {
-        if (!output_started_) {
-          http_response_("[]\n");
+      try {
+        if (params_.array) {
+          if (!output_started_) {
+            http_response_("[]\n");
+          } else {
+            http_response_("]\n");
+          }
         } else {
-          http_response_("]\n");
+          // flush cached response data.
+          http_response_("", current::net::ChunkFlush::Flush);
         }
-      } else {
-        // flush cached response data.
-        http_response_("", current::net::ChunkFlush::Flush);
+      } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
       }
     }
     return result;
@@ -449,7 +455,11 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
         return ss::EntryResponse::Done;
       }
       if (!params_.array && !params_.entries_only) {
-        http_response_(JSON<J>(ts_only_t(us)) + '\n');
+        try {
+          http_response_(JSON<J>(ts_only_t(us)) + '\n');
+        } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
+          return ss::EntryResponse::Done;                  // LCOV_EXCL_LINE
+        }
       }
     }
     return ss::EntryResponse::More;
@@ -464,10 +474,13 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
   // LCOV_EXCL_START
   ss::TerminationResponse Terminate() {
     static const std::string message = "{\"error\":\"The subscriber has terminated.\"}\n";
-    if (params_.array && output_started_) {
-      http_response_(",\n" + message + "]\n");
-    } else {
-      http_response_(message);
+    try {
+      if (params_.array && output_started_) {
+        http_response_(",\n" + message + "]\n");
+      } else {
+        http_response_(message);
+      }
+    } catch (const current::net::NetworkException&) {
     }
     return ss::TerminationResponse::Terminate;
   }
-- 
2.43.0


From ec849d7e8e630001f9ac572a5fd2ac205cbeaeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 10/88] fix: stream HTTP endpoint ignored `i` if combined with
 `tail=0`

---
 stream/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/stream.h b/stream/stream.h
index 28d241f..4495818 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -549,7 +549,7 @@ class Stream final {
       if (request_params.tail) {
         if (request_params.tail == static_cast<uint64_t>(-1)) {
           // Special case for `&tail=0`: act as `tail -f` from the current end of the stream.
-          begin_idx = stream_size;
+          begin_idx = std::max(request_params.i, stream_size);
           request_params.tail = stream_size;
         } else {
           const uint64_t idx_by_tail = request_params.tail < stream_size ? (stream_size - request_params.tail) : 0u;
-- 
2.43.0


From 716faf4dad1011c47fa5e3957a48406fba516e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 11/88] fix: a HEAD update made the stream HTTP endpoint forget
 about `i` if combined with `since` or `recent`

---
 stream/pubsub.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 1767c42..f92802e 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -443,7 +443,12 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
     }
     // Respect `since` and `recent`.
     if (!serving_ && from_timestamp_.count() > 0 && us >= from_timestamp_) {
-      serving_ = true;
+      // Respect `i` as well: start serving only if the next entry after this HEAD is to be served.
+      const auto next_index = std::min(
+          impl_->persister.IndexRangeByTimestampRange(us + std::chrono::microseconds(1)).first, impl_->persister.Size());
+      if (next_index >= params_.i) {
+        serving_ = true;
+      }
     }
     if (serving_) {
       // If `period` is set, set the maximum possible timestamp.
-- 
2.43.0


From 95cc8a4b6383802b7abcd277bab1c903ef66a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 12/88] fix: an HTTP subscription could not be terminated by
 its ID right after that ID was received

---
 stream/stream.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 4495818..67b8159 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -489,19 +489,21 @@ class Stream final {
     auto request_params = ParsePubSubHTTPRequest(r);  // Mutable as `tail` may change. -- D.K.
 
     if (request_params.terminate_requested) {
-      typename impl_t::http_subscriptions_t::iterator it;
+      bool found = false;
+      current::stream::SubscriberScope scope_to_terminate;
       {
-        // NOTE: This is not thread-safe!!!
-        // The iterator may get invalidated in between the next few lines.
-        // However, during the call to `= nullptr` the mutex will be locked again from within the
-        // thread terminating callback. Need to clean this up. TODO(dkorolev).
         std::lock_guard<std::mutex> lock(borrowed_impl->http_subscriptions_mutex);
-        it = borrowed_impl->http_subscriptions.find(request_params.terminate_id);
+        const auto it = borrowed_impl->http_subscriptions.find(request_params.terminate_id);
+        if (it != borrowed_impl->http_subscriptions.end()) {
+          found = true;
+          scope_to_terminate = std::move(it->second.first);
+        }
       }
-      if (it != borrowed_impl->http_subscriptions.end()) {
-        // Subscription found. Delete the scope, triggering the thread to shut down.
+      if (found) {
+        // Subscription found. Delete the scope, triggering the thread to shut down. The mutex should not be locked here,
+        // as it will be locked again from within the thread terminating callback.
         // TODO(dkorolev): This should certainly not happen synchronously.
-        it->second.first = nullptr;
+        scope_to_terminate = nullptr;
         // Subscription terminated.
         r("", HTTPResponseCode.OK);
       } else {
@@ -577,6 +579,10 @@ class Stream final {
 
       const std::string subscription_id = GenerateRandomHTTPSubscriptionID();
 
+      // The client learns its subscription ID from the HTTP headers, which the constructor of `PubSubHTTPEndpoint` sends.
+      // Keep the mutex locked until the subscription is registered, so that `?terminate=` and `done_callback` can find it.
+      std::unique_lock<std::mutex> lock(borrowed_impl->http_subscriptions_mutex);
+
       auto http_chunked_subscriber = std::make_unique<PubSubHTTPEndpoint<entry_t, PERSISTENCE_LAYER, J>>(
           subscription_id, borrowed_impl, std::move(r), std::move(request_params));
       const auto done_callback = [borrowed_impl, subscription_id]() {
@@ -589,14 +595,12 @@ class Stream final {
                                  : static_cast<current::stream::SubscriberScope>(SubscribeUnchecked(
                                        *http_chunked_subscriber, begin_idx, from_timestamp, done_callback));
 
-      {
-        std::lock_guard<std::mutex> lock(borrowed_impl->http_subscriptions_mutex);
-        // Note: Silently relying on no collision here. Suboptimal.
-        if (!borrowed_impl->http_subscriptions.count(subscription_id)) {
-          borrowed_impl->http_subscriptions[subscription_id] =
-              std::make_pair(std::move(http_chunked_subscriber_scope), std::move(http_chunked_subscriber));
-        }
+      // Note: Silently relying on no collision here. Suboptimal.
+      if (!borrowed_impl->http_subscriptions.count(subscription_id)) {
+        borrowed_impl->http_subscriptions[subscription_id] =
+            std::make_pair(std::move(http_chunked_subscriber_scope), std::move(http_chunked_subscriber));
       }
+      lock.unlock();
     }
   }
 
-- 
2.43.0


From e811d92a82e0432e7665d5196810d8ba0e198f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 13/88] fix: RemoteSubscriberThread started its thread before
 the last member was constructed, and left that member uninitialized

---
 stream/replicator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 21a7537..55d4d4e 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -357,8 +357,8 @@ class SubscribableRemoteStream final {
     const SubscriptionMode subscription_mode_;
     current::WaitableAtomic<std::string> subscription_id_;
     std::atomic_bool terminate_subscription_requested_;
+    uint32_t consecutive_malformed_chunks_count_ = 0u;
     std::thread thread_;
-    uint32_t consecutive_malformed_chunks_count_;
   };
 
   template <typename F, typename TYPE_SUBSCRIBED_TO, ReplicationMode RM>
-- 
2.43.0


From 93f9fd8a67e5fcc46b9c2995442c74592ca625c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 14/88] fix: a flip deadlocked with a borrowed publisher that
 was in the middle of publishing

---
 stream/stream.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 67b8159..f12776d 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -150,6 +150,9 @@ class Stream final {
   // and wait until all of them are released.
   Optional<Owned<publisher_t>> owned_publisher_;
 
+  // To have the publisher recreated by one thread at a time.
+  std::mutex recreate_publisher_mutex_;
+
   // The "reference" to the publisher that can be borrowed -- iff the stream owns its publisher, i.e. is the Master.
   // DIMA Optional<BorrowedOfGuaranteedLifetime<publisher_t>> borrowable_publisher_;
   Optional<Borrowed<publisher_t>> borrowable_publisher_;
@@ -199,11 +202,23 @@ class Stream final {
   // `RecreatePublisher` invalidates all external publishers to this stream and creates a fresh new publisher,
   // which then can be stored in the stream (Master mode) or given out of it (Following mode).
   // NOTE: The call to `RecreatePublisher` will wait indefinitely if external publishers are not giving up.
+  // NOTE: Must be called with the publishing mutex locked. Unless `MLS` is `AlreadyLocked`, i.e. it is the user who
+  //       has locked it, this mutex is unlocked for the duration of the wait, as the external publishers do need it
+  //       in order to complete publishing what they are publishing before giving up.
+  template <current::locks::MutexLockStatus MLS>
   Borrowed<publisher_t> RecreatePublisher() {
     // Kill existing borrowers of the publisher. Wait as needed, for as long as needed.
     // This is essential to gracefully invalidate all the previously-issued borrowed publishers.
     borrowable_publisher_ = nullptr;
+    Optional<Owned<publisher_t>> publisher_to_destroy(std::move(owned_publisher_));
     owned_publisher_ = nullptr;
+    if constexpr (MLS == current::locks::MutexLockStatus::NeedToLock) {
+      impl_->publishing_mutex.unlock();
+    }
+    publisher_to_destroy = nullptr;
+    if constexpr (MLS == current::locks::MutexLockStatus::NeedToLock) {
+      impl_->publishing_mutex.lock();
+    }
     // Create a fresh new publisher.
     owned_publisher_ = MakeOwned<publisher_t>(impl_);
     return Value(owned_publisher_);
@@ -248,8 +263,9 @@ class Stream final {
   // NOTE: The call to `BecomeMasterStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   void BecomeMasterStream() {
+    current::locks::SmartMutexLockGuard<MLS> recreate_lock(recreate_publisher_mutex_);
     current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
-    borrowable_publisher_ = RecreatePublisher();
+    borrowable_publisher_ = RecreatePublisher<MLS>();
   }
 
   // `BecomeFollowingStream` invalidates all external publishers to this stream,
@@ -259,8 +275,9 @@ class Stream final {
   // NOTE: The call to `BecomeFollowingStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   Borrowed<publisher_t> BecomeFollowingStream() {
+    current::locks::SmartMutexLockGuard<MLS> recreate_lock(recreate_publisher_mutex_);
     current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
-    return RecreatePublisher();
+    return RecreatePublisher<MLS>();
   }
 
   // TODO(dkorolev): Master-follower flip between two streams belongs in Stream first, then in Storage.
-- 
2.43.0


From 9d74ab6bec88b34e8cea42a82e92c414253790e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 15/88] fix: WaitableAtomic::UseAsLock() did not compile if
 used

---
 bricks/sync/waitable_atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index a5eca57..1dcaa2f 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -187,7 +187,7 @@ class WaitableAtomicImpl {
     void Notify() { data_condition_variable_.notify_all(); }
 
     void UseAsLock(std::function<void()> f) const {
-      std::unique_lock<std::mutex> lock(data_t::data_mutex_);
+      std::unique_lock<std::mutex> lock(data_mutex_);
       f();
     }
 
-- 
2.43.0


From 6fed19c550151a57ed51b574749e925c276c3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 16/88] fix: MMQ returned the index and timestamp of the slot
 it no longer owned

---
 blocks/mmq/mmq.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 0b33429..9dccec2 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -103,8 +103,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = message;
+      // Once committed, the slot can be consumed and reused at any moment.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
@@ -115,8 +117,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = std::move(message);
+      // Once committed, the slot can be consumed and reused at any moment.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
-- 
2.43.0


From b082b72d37fcc804639493464e50bcc0898b7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 17/88] fix: timestamps went back in MMQ if several publishers
 waited for a free slot

---
 blocks/mmq/mmq.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 9dccec2..ba4c001 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -216,10 +216,6 @@ class MMQImpl {
     if (destructing_) {
       return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
     }
-    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
-    if (!(timestamp > last_idx_ts_.us)) {
-      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
-    }
     while (circular_buffer_[head_].status != Entry::FREE) {
       // Waiting for the next empty slot in the buffer.
       condition_variable_.wait(lock,
@@ -228,9 +224,15 @@ class MMQImpl {
         return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
       }
     }
+    // The timestamp should be looked at after the wait, as other messages could have been published during it.
+    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
+    if (!(timestamp > last_idx_ts_.us)) {
+      condition_variable_.notify_all();  // The slot stays free, another publisher may well be waiting for it.
+      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
+    }
     const size_t index = head_;
     ++last_idx_ts_.index;
-    last_idx_ts_.us = timestamp.count() >= 0 ? timestamp : current::time::Now();
+    last_idx_ts_.us = timestamp;
     Increment(head_);
     circular_buffer_[index].status = Entry::BEING_IMPORTED;
     circular_buffer_[index].index_timestamp = last_idx_ts_;
-- 
2.43.0


From 0b042e6da1cb563219b625e0b54851b9a2cb2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 18/88] fix: MMQ did not commit the messages still queued when
 it was being destroyed

---
 blocks/mmq/mmq.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index ba4c001..9417332 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -148,8 +148,8 @@ class MMQImpl {
         std::unique_lock<std::mutex> lock(mutex_);
         condition_variable_.wait(
             lock, [this, tail] { return (circular_buffer_[tail].status == Entry::READY) || destructing_; });
-        if (destructing_) {
-          return;  // LCOV_EXCL_LINE
+        if (circular_buffer_[tail].status != Entry::READY) {
+          return;  // Destructing, with all the queued messages committed.  // LCOV_EXCL_LINE
         }
         circular_buffer_[tail].status = Entry::BEING_EXPORTED;
         save_last_idx_ts = last_idx_ts_;
-- 
2.43.0


From 255a4a3e93ecd2747745be0fb040bcc1b7814603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 19/88] fix: MMPQ lost a message if one with the same timestamp
 was already in the queue

---
 blocks/mmq/mmpq.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 879ff74..058e49f 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -32,6 +32,7 @@ SOFTWARE.
 #include <mutex>
 #include <thread>
 #include <set>
+#include <tuple>
 
 #include "../ss/ss.h"
 
@@ -135,7 +136,10 @@ class MMPQImpl {
     Entry(Entry&&) = default;
     Entry(message_t&& message_body, idxts_t index_timestamp)
         : index_timestamp(index_timestamp), message_body(std::move(message_body)) {}
-    bool operator<(const Entry& rhs) const { return index_timestamp.us < rhs.index_timestamp.us; }
+    bool operator<(const Entry& rhs) const {
+      return std::tie(index_timestamp.us, index_timestamp.index) <
+             std::tie(rhs.index_timestamp.us, rhs.index_timestamp.index);
+    }
   };
 
   std::set<Entry> queue_;
-- 
2.43.0


From a5c1f36e38405103863a3b5e58d390bf5ec22b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 20/88] fix: MMPQ did not commit the messages it had to when it
 was being destroyed

---
 blocks/mmq/mmpq.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 058e49f..b9a8cd2 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -113,8 +113,8 @@ class MMPQImpl {
         return (!queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us) || destructing_;
       });
 
-      if (destructing_) {
-        return;  // LCOV_EXCL_LINE
+      if (queue_.empty() || queue_.begin()->index_timestamp.us > last_idx_ts_.us) {
+        return;  // Destructing, with all the messages up to the head committed.  // LCOV_EXCL_LINE
       }
 
       auto it = queue_.begin();
-- 
2.43.0


From 3eb19a7dfd99d31f9156f95f862bf572710fa41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 21/88] fix: a moved BorrowedOfGuaranteedLifetime hung, not
 failed, if it outlived its owner

---
 bricks/sync/owned_borrowed.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 49bf5e5..5a44f56 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -458,7 +458,9 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
   void operator=(std::nullptr_t) { base_t::InternalUnRegister(); }
 
   BorrowedOfGuaranteedLifetime(BorrowedOfGuaranteedLifetime&& rhs)
-      : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
+      : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(),
+               std::move(rhs),
+               BorrowedOfGuaranteedLifetimeInvariantErrorCallback) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
     if (this != &rhs) {
-- 
2.43.0


From f93f8edee810a25e3ede775ccc35edf88603e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 22/88] fix: the array was not closed in the response if its
 period was ended by a head update

---
 stream/pubsub.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index f92802e..2741f96 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -457,6 +457,12 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       }
       // Stop serving if the limit on timestamp is exceeded.
       if (to_timestamp_.count() && us > to_timestamp_) {
+        if (params_.array) {
+          try {
+            http_response_(output_started_ ? "]\n" : "[]\n");
+          } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
+          }
+        }
         return ss::EntryResponse::Done;
       }
       if (!params_.array && !params_.entries_only) {
-- 
2.43.0


From ddce75adc5caefcfb903e9528ef8e8ba3c1c2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 23/88] fix: a second step of ReadWriteTransaction that throws
 no longer reports an already committed transaction as rolled back, nor is it
 called twice

---
 storage/transaction_policy.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/storage/transaction_policy.h b/storage/transaction_policy.h
index ed0ee2c..a2933c5 100644
--- a/storage/transaction_policy.h
+++ b/storage/transaction_policy.h
@@ -217,14 +217,13 @@ class Synchronous final {
     if (destructing_) {
       promise.set_exception(std::make_exception_ptr(StorageInGracefulShutdownException()));  // LCOV_EXCL_LINE
     } else {
+      bool successful = false;
       result_t f1_result;
       try {
         journal_.BeforeTransaction();
         f1_result = f1();
         journal_.AfterTransaction();
-        PersistJournal();
-        f2(std::move(f1_result));
-        promise.set_value(TransactionResult<void>::Committed(OptionalResultExists()));
+        successful = true;
       } catch (const StorageRollbackExceptionWithValue<result_t>& e) {
         // The transaction was rolled back, but returned a value, which we try to pass again to `f2`.
         journal_.Rollback();
@@ -246,6 +245,16 @@ class Synchronous final {
         }
         // LCOV_EXCL_STOP
       }
+      if (successful) {
+        PersistJournal();
+        // The transaction is committed from here on. Whatever `f2` throws can not roll it back.
+        try {
+          f2(std::move(f1_result));
+          promise.set_value(TransactionResult<void>::Committed(OptionalResultExists()));
+        } catch (...) {
+          promise.set_exception(std::current_exception());
+        }
+      }
     }
     return Future<TransactionResult<void>, StrictFuture::Strict>(promise.get_future());
   }
-- 
2.43.0


From 161d36171ffdc19685bd819bc59dcca2c57aa873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 24/88] fix: last_applied_timestamp_ of the stream persister is
 atomic, as LastAppliedTimestamp() races with a follower applying transactions

---
 storage/persister/stream.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storage/persister/stream.h b/storage/persister/stream.h
index 595a50d..3d75b6c 100644
--- a/storage/persister/stream.h
+++ b/storage/persister/stream.h
@@ -26,6 +26,8 @@ SOFTWARE.
 #ifndef CURRENT_STORAGE_PERSISTER_STREAM_H
 #define CURRENT_STORAGE_PERSISTER_STREAM_H
 
+#include <atomic>
+
 #include "common.h"
 #include "../base.h"
 #include "../exceptions.h"
@@ -209,7 +211,7 @@ class StreamStreamPersisterImpl final {
   void TerminateStreamSubscriptionFromLockedSection() { subscriber_scope_ = nullptr; }
 
   void SetLastAppliedTimestampFromLockedSection(std::chrono::microseconds timestamp) {
-    CURRENT_ASSERT(timestamp > last_applied_timestamp_);
+    CURRENT_ASSERT(timestamp > last_applied_timestamp_.load());
     last_applied_timestamp_ = timestamp;
   }
 
@@ -224,7 +226,8 @@ class StreamStreamPersisterImpl final {
   std::unique_ptr<StreamSubscriber> subscriber_instance_;
   current::stream::SubscriberScope subscriber_scope_;
 
-  std::chrono::microseconds last_applied_timestamp_ = std::chrono::microseconds(-1);  // Replayed or from the master.
+  // Replayed or from the master. Updated with the publishing mutex locked, and read without it, thus atomic.
+  std::atomic<std::chrono::microseconds> last_applied_timestamp_{std::chrono::microseconds(-1)};
 
   HTTPRoutesScope handlers_scope_;
 };
-- 
2.43.0


From c6ac787f1c6f6eec547ed3e2c4829200cd6179f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 25/88] fix: ParseJSON into an existing object from a string or
 a chunk ignored the JSON format requested

---
 typesystem/serialization/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index 1744108..f1871df 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -353,12 +353,12 @@ inline void ParseJSON(const char* source, T& destination) {
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const std::string& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const strings::Chunk& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
-- 
2.43.0


From f5b183f91f76e0b7409040fe3331e79f2bdefe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 26/88] fix: patching a map with JSON leaked fields of its
 previous element into the next one

---
 typesystem/serialization/json/map.h           | 4 ++--
 typesystem/serialization/json/unordered_map.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index 3713bc6..df20885 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -73,11 +73,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
                                                                         std::map<TK, TV, TC, TA>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index 1017f32..0dc6bd1 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -75,11 +75,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
       json::JSONParser<JSON_FORMAT>& json_parser, std::unordered_map<TK, TV, HASH, EQ, ALLOCATOR>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
-- 
2.43.0


From 05fc0c8c6ba52f6e3d4eead5f123c66103655407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 27/88] fix: parsing JSON into std::array silently dropped the
 elements that do not fit

---
 typesystem/serialization/json/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typesystem/serialization/json/array.h b/typesystem/serialization/json/array.h
index 57e54e3..8f388db 100644
--- a/typesystem/serialization/json/array.h
+++ b/typesystem/serialization/json/array.h
@@ -48,6 +48,9 @@ template <class JSON_FORMAT, typename T, size_t N>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::array<T, N>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::array<T, N>& destination) {
     if (json_parser && json_parser.Current().IsArray()) {
+      if (json_parser.Current().Size() != static_cast<rapidjson::SizeType>(N)) {
+        CURRENT_THROW(JSONSchemaException("array of exactly " + current::ToString(N) + " elements", json_parser));
+      }
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(N); ++i) {
         json_parser.Inner(&json_parser.Current()[i], destination[i], "[", static_cast<int>(i), "]");
       }
-- 
2.43.0


From 57d854642f05117e11398ef7a227614aa0301a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 28/88] fix: a third of double-s were off by one ULP after a
 round trip via JSON

---
 blocks/json/json.h                   | 2 +-
 typesystem/serialization/json/json.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index 6ad0f55..a446756 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -240,7 +240,7 @@ inline JSONValue ParseJSONUniversally(rapidjson::Value* value) { return ParseJSO
 
 inline JSONValue ParseJSONUniversally(const std::string& json) {
   rapidjson::Document document;
-  if (document.Parse(json).HasParseError()) {
+  if (document.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
     CURRENT_THROW(TypeSystemParseJSONException());
   }
   return ParseJSONUniversally(document);
diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index f1871df..903e1a9 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -242,7 +242,8 @@ template <class JSON_FORMAT>
 class JSONParser final {
  public:
   explicit JSONParser(const char* json) {
-    if (document_.Parse(json).HasParseError()) {
+    // The full precision flag is what it takes for `double`-s to be parsed back as exactly what they were.
+    if (document_.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
       CURRENT_THROW(InvalidJSONException(json));
     }
     current_ = &document_;
-- 
2.43.0


From 34ffe94cb7a79bb6d0e901ca51976a8efad410df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 29/88] fix: deeply nested JSON overflowed the stack of the
 parser

---
 blocks/json/json.h                        |  3 +-
 typesystem/serialization/json/json.h      |  2 +-
 typesystem/serialization/json/rapidjson.h | 37 +++++++++++++++++++++++
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index a446756..fda97ab 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -240,7 +240,8 @@ inline JSONValue ParseJSONUniversally(rapidjson::Value* value) { return ParseJSO
 
 inline JSONValue ParseJSONUniversally(const std::string& json) {
   rapidjson::Document document;
-  if (document.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
+  if (serialization::json::JSONIsNestedTooDeep(json.c_str()) ||
+      document.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
     CURRENT_THROW(TypeSystemParseJSONException());
   }
   return ParseJSONUniversally(document);
diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index 903e1a9..d0eec4d 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -243,7 +243,7 @@ class JSONParser final {
  public:
   explicit JSONParser(const char* json) {
     // The full precision flag is what it takes for `double`-s to be parsed back as exactly what they were.
-    if (document_.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
+    if (JSONIsNestedTooDeep(json) || document_.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
       CURRENT_THROW(InvalidJSONException(json));
     }
     current_ = &document_;
diff --git a/typesystem/serialization/json/rapidjson.h b/typesystem/serialization/json/rapidjson.h
index 60f0144..0890527 100644
--- a/typesystem/serialization/json/rapidjson.h
+++ b/typesystem/serialization/json/rapidjson.h
@@ -41,4 +41,41 @@ inline void RapidJSONAssertThrow(const char* text, const char* file, int line) {
 #include "../../../3rdparty/rapidjson/document.h"
 #include "../../../3rdparty/rapidjson/prettywriter.h"
 
+namespace current {
+namespace serialization {
+namespace json {
+
+// RapidJSON's parser and writer, as well as what traverses the document it has parsed, are recursive.
+// As the input may well come from the outside, do not let it overflow the stack.
+constexpr static size_t kMaxJSONDepth = 1000u;
+
+inline bool JSONIsNestedTooDeep(const char* json) {
+  size_t depth = 0u;
+  bool inside_string = false;
+  for (; *json; ++json) {
+    if (inside_string) {
+      if (*json == '\\') {
+        if (!*++json) {
+          return false;
+        }
+      } else if (*json == '"') {
+        inside_string = false;
+      }
+    } else if (*json == '"') {
+      inside_string = true;
+    } else if (*json == '[' || *json == '{') {
+      if (++depth > kMaxJSONDepth) {
+        return true;
+      }
+    } else if ((*json == ']' || *json == '}') && depth) {
+      --depth;
+    }
+  }
+  return false;
+}
+
+}  // namespace json
+}  // namespace serialization
+}  // namespace current
+
 #endif  // CURRENT_TYPE_SYSTEM_SERIALIZATION_JSON_RAPIDJSON_H
-- 
2.43.0


From 654e5042b81b93886ae3ed62d3c67eaef534a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 30/88] fix: integers in JSON were silently truncated if they
 do not fit the type of the field

---
 typesystem/serialization/json/enum.h       | 8 ++++++++
 typesystem/serialization/json/primitives.h | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/typesystem/serialization/json/enum.h b/typesystem/serialization/json/enum.h
index c4cf16a..8d13129 100644
--- a/typesystem/serialization/json/enum.h
+++ b/typesystem/serialization/json/enum.h
@@ -46,12 +46,20 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<std::i
     if (json_parser && json_parser.Current().IsNumber()) {
       if (std::numeric_limits<typename std::underlying_type<T>::type>::is_signed) {
         if (json_parser.Current().IsInt64()) {
+          const int64_t value = json_parser.Current().GetInt64();
+          if (static_cast<int64_t>(static_cast<typename std::underlying_type<T>::type>(value)) != value) {
+            CURRENT_THROW(JSONSchemaException("enum within the range of its underlying type", json_parser));
+          }
           destination = static_cast<T>(json_parser.Current().GetInt64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as unsigned integer", json_parser));  // LCOV_EXCL_LINE
         }
       } else {
         if (json_parser.Current().IsUint64()) {
+          const uint64_t value = json_parser.Current().GetUint64();
+          if (static_cast<uint64_t>(static_cast<typename std::underlying_type<T>::type>(value)) != value) {
+            CURRENT_THROW(JSONSchemaException("enum within the range of its underlying type", json_parser));
+          }
           destination = static_cast<T>(json_parser.Current().GetUint64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as signed integer", json_parser));  // LCOV_EXCL_LINE
diff --git a/typesystem/serialization/json/primitives.h b/typesystem/serialization/json/primitives.h
index c333303..c316292 100644
--- a/typesystem/serialization/json/primitives.h
+++ b/typesystem/serialization/json/primitives.h
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #include <string>
 #include <chrono>
+#include <limits>
 #include <type_traits>
 
 #include "json.h"
@@ -82,6 +83,9 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                                         !std::is_same_v<T, bool>>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
     if (json_parser && json_parser.Current().IsUint64()) {
+      if (json_parser.Current().GetUint64() > static_cast<uint64_t>(std::numeric_limits<T>::max())) {
+        CURRENT_THROW(JSONSchemaException("unsigned integer within the range of its type", json_parser));
+      }
       destination = static_cast<T>(json_parser.Current().GetUint64());
     } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsUint64())) {
       CURRENT_THROW(JSONSchemaException("unsigned integer", json_parser));  // LCOV_EXCL_LINE
@@ -96,6 +100,10 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                        std::enable_if_t<std::numeric_limits<T>::is_integer && std::numeric_limits<T>::is_signed>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
     if (json_parser && json_parser.Current().IsInt64()) {
+      if (json_parser.Current().GetInt64() < static_cast<int64_t>(std::numeric_limits<T>::min()) ||
+          json_parser.Current().GetInt64() > static_cast<int64_t>(std::numeric_limits<T>::max())) {
+        CURRENT_THROW(JSONSchemaException("integer within the range of its type", json_parser));
+      }
       destination = static_cast<T>(json_parser.Current().GetInt64());
     } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsInt64())) {
       CURRENT_THROW(JSONSchemaException("integer", json_parser));  // LCOV_EXCL_LINE
-- 
2.43.0


From b4cd95e84388ce022dd97f8aacda79a18caaa6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 31/88] fix: JSON() generated incomplete JSON if the object
 contains a NaN or an infinity; it throws now

---
 typesystem/serialization/exceptions_base.h | 6 ++++++
 typesystem/serialization/json/json.h       | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/typesystem/serialization/exceptions_base.h b/typesystem/serialization/exceptions_base.h
index 71f1f5b..166f96f 100644
--- a/typesystem/serialization/exceptions_base.h
+++ b/typesystem/serialization/exceptions_base.h
@@ -47,6 +47,12 @@ struct InvalidJSONException : TypeSystemParseJSONException {
 
 struct JSONUninitializedVariantObjectException : TypeSystemParseJSONException {};
 
+// Thrown when attempting to generate JSON from what can not be represented in it, such as a NaN or an infinity.
+struct NotRepresentableAsJSONException : Exception {
+  using Exception::Exception;
+};
+
+
 }  // namespace json
 
 }  // namespace serialization
diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index d0eec4d..aa1127e 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -170,7 +170,10 @@ class JSONStringifier final {
   std::string ResultingJSON() const {
     rapidjson::StringBuffer string_buffer;
     rapidjson::Writer<rapidjson::StringBuffer> writer(string_buffer);
-    document_.Accept(writer);
+    if (!document_.Accept(writer)) {
+      // Otherwise the result is the incomplete, invalid JSON: everything up to the offending value.
+      CURRENT_THROW(NotRepresentableAsJSONException("JSON can not represent a NaN or an infinity."));
+    }
     return string_buffer.GetString();
   }
 
-- 
2.43.0


From e9e6200e7b2b5f2b7d6a3b74414b0d60992c9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 32/88] fix: JSONNumber-s that do not fit 64 bits were output
 as different numbers (undefined behavior)

---
 blocks/json/json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index fda97ab..d609925 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -83,7 +83,8 @@ CURRENT_STRUCT(JSONNumber) {
   CURRENT_CONSTRUCTOR(JSONNumber)(double number = 0) : number(number) {}
   operator double() const { return number; }
   void DoAppendToJSON(std::ostream & os) const {
-    if (number == std::floor(number)) {
+    // Only cast to integers if the value fits: 2^63 and 2^64 are represented exactly as `double`-s.
+    if (number == std::floor(number) && number >= -9223372036854775808.0 && number < 18446744073709551616.0) {
       if (number < 0) {
         os << JSON(static_cast<int64_t>(number));
       } else {
-- 
2.43.0


From 2218160b7e765b4bf3ec250b927fe17599e3cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 33/88] fix: ParseJSONUniversally returned an object with the
 same key listed several times if the JSON has it several times

---
 blocks/json/json.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index d609925..c03f8b0 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -221,8 +221,9 @@ inline JSONValue ParseJSONUniversally(rapidjson::Value& value) {
     for (rapidjson::Value::MemberIterator cit = value.MemberBegin(); cit != value.MemberEnd(); ++cit) {
       std::string key;
       key.assign(cit->name.GetString(), cit->name.GetStringLength());
-      retval.keys.push_back(key);
-      retval.fields.emplace(std::move(key), ParseJSONUniversally(cit->value));
+      if (retval.fields.emplace(key, ParseJSONUniversally(cit->value)).second) {
+        retval.keys.push_back(std::move(key));
+      }
     }
     return retval;
   } else if (value.IsArray()) {
-- 
2.43.0


From b60d5980037f6201b3ad9ec9aca8afe81cfc7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 34/88] fix: PatchObjectWithJSON threw if a map or a variant is
 not mentioned in the patch, and cleared the sets which are not

---
 typesystem/serialization/json/map.h           | 8 ++++----
 typesystem/serialization/json/set.h           | 2 +-
 typesystem/serialization/json/unordered_map.h | 8 ++++----
 typesystem/serialization/json/unordered_set.h | 2 +-
 typesystem/serialization/json/variant.h       | 4 +++-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index df20885..e9478f1 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -66,8 +66,8 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, std::map<std::string, T
   }
 };
 
-template <class JSON_FORMAT, typename TK, typename TV, typename TC, typename TA, class J>
-struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>, J> {
+template <class JSON_FORMAT, typename TK, typename TV, typename TC, typename TA>
+struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>> {
   template <typename K = TK>
   static std::enable_if_t<std::is_same_v<std::string, K>> DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser,
                                                                         std::map<TK, TV, TC, TA>& destination) {
@@ -82,7 +82,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -106,7 +106,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
diff --git a/typesystem/serialization/json/set.h b/typesystem/serialization/json/set.h
index bf28d6e..a672306 100644
--- a/typesystem/serialization/json/set.h
+++ b/typesystem/serialization/json/set.h
@@ -50,8 +50,8 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, std::set<T, EQ, ALLOCAT
 template <class JSON_FORMAT, typename T, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::set<T, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::set<T, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index 0dc6bd1..a514a78 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -68,8 +68,8 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, std::unordered_map<std:
   }
 };
 
-template <class JSON_FORMAT, typename TK, typename TV, class HASH, class EQ, class ALLOCATOR, class J>
-struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV, HASH, EQ, ALLOCATOR>, J> {
+template <class JSON_FORMAT, typename TK, typename TV, class HASH, class EQ, class ALLOCATOR>
+struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV, HASH, EQ, ALLOCATOR>> {
   template <typename K = TK>
   static std::enable_if_t<std::is_same_v<std::string, K>> DoDeserialize(
       json::JSONParser<JSON_FORMAT>& json_parser, std::unordered_map<TK, TV, HASH, EQ, ALLOCATOR>& destination) {
@@ -84,7 +84,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -110,7 +110,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
diff --git a/typesystem/serialization/json/unordered_set.h b/typesystem/serialization/json/unordered_set.h
index 36d5798..4e469f4 100644
--- a/typesystem/serialization/json/unordered_set.h
+++ b/typesystem/serialization/json/unordered_set.h
@@ -51,8 +51,8 @@ template <class JSON_FORMAT, typename T, class HASH, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_set<T, HASH, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser,
                             std::unordered_set<T, HASH, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
diff --git a/typesystem/serialization/json/variant.h b/typesystem/serialization/json/variant.h
index 17eedcb..f977bf1 100644
--- a/typesystem/serialization/json/variant.h
+++ b/typesystem/serialization/json/variant.h
@@ -419,7 +419,9 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, T, std::enable_if_t<IS_
 template <class JSON_FORMAT, typename T>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<IS_CURRENT_VARIANT(T)>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& value) {
-    if (!json_parser || json_parser.Current().IsNull()) {
+    if (!json_parser && json::JSONPatchMode<JSON_FORMAT>::value) {
+      // No key in the patch, no changes.
+    } else if (!json_parser || json_parser.Current().IsNull()) {
       if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value) {
         CURRENT_THROW(JSONUninitializedVariantObjectException());
       }
-- 
2.43.0


From 4b246b22f48305e22ed1721c4e958d28b991f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 35/88] fix: URL::EncodeURIComponent encoded bytes above 0x7F
 as `%FFFFFFxx`

---
 blocks/url/url.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index 4ca959d..a4ff243 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -260,7 +260,7 @@ struct URLParametersExtractor {
       } else if (c == ' ') {
         encoded << "%20";
       } else {
-        encoded << current::strings::Printf("%%%02X", static_cast<int>(c));
+        encoded << current::strings::Printf("%%%02X", static_cast<int>(static_cast<unsigned char>(c)));
       }
     }
     return encoded.str();
-- 
2.43.0


From 2fa080945748f96cfc29c121596deaf97a3269ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 36/88] fix: `://` in the path of the URL was treated as its
 scheme separator

---
 blocks/url/url.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index a4ff243..dbe8a16 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -102,8 +102,10 @@ struct URLWithoutParametersParser {
     size_t parsed_offset = 0;
 
     // This piece parses scheme.
-    const size_t double_slash = url.find("//");
-    if (double_slash != std::string::npos && (double_slash == 0 || url[double_slash - 1] == ':')) {
+    // NOTE: The first slash it is. The path itself, as in `/path/http://foo`, may well contain `://`.
+    const size_t double_slash = url.find('/');
+    if (double_slash != std::string::npos && double_slash + 1 < url.length() && url[double_slash + 1] == '/' &&
+        (double_slash == 0 || url[double_slash - 1] == ':')) {
       scheme = (double_slash == 0 ? "" : url.substr(0, double_slash - 1));
       parsed_offset = double_slash + 2;
     }
-- 
2.43.0


From 25671d505607fb8871687b7f2abe6710df4e77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 37/88] fix: Headers::Remove() by a different spelling left a
 dangling pointer behind

---
 bricks/net/http/headers/headers.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index dff875a..e93e83a 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -225,14 +225,16 @@ struct Headers final {
     Header::ThrowIfHeaderIsCookie(header);
     const auto cit = map.find(header);
     if (cit != map.end()) {
-      map.erase(cit);
+      // Compare the pointers, not the names, as `header` can be spelled differently.
+      const Header* const removed = cit->second.get();
       headers_list_t updated_list;
       for (const auto& e : list) {
-        if (e.first != header) {
-          updated_list.emplace_back(std::move(e));
+        if (e.second != removed) {
+          updated_list.emplace_back(e);
         }
       }
       list = std::move(updated_list);
+      map.erase(cit);
     }
     return *this;
   }
-- 
2.43.0


From 968d95e5a04d9508740174f569c1ab7bb4044b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 38/88] fix: assigning Headers kept the old ones, some of them
 dangling

---
 bricks/net/http/headers/headers.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index e93e83a..84f970c 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -187,7 +187,11 @@ struct Headers final {
   Headers(const Headers& rhs) { DeepCopyFrom(rhs); }
 
   Headers& operator=(const Headers& rhs) {
-    DeepCopyFrom(rhs);
+    if (this != &rhs) {
+      map.clear();
+      list.clear();
+      DeepCopyFrom(rhs);
+    }
     return *this;
   }
 
-- 
2.43.0


From d39cc8e9ed5c59901e8c83801b1c11b6653c9663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 39/88] fix: the HTTP server thread was started before the
 members it uses were constructed

---
 blocks/http/impl/posix_server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 9c087f6..d8b790d 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -542,13 +542,15 @@ class HTTPServerPOSIX final {
 
   std::atomic_bool terminating_;
   const uint16_t port_;
-  std::thread thread_;
 
   // TODO(dkorolev): Look into read-write mutexes here.
   mutable std::mutex mutex_;
 
   std::map<std::string, std::map<size_t, Owned<std::function<void(Request)>>>> handlers_;
   std::vector<std::unique_ptr<StaticFileServer>> static_file_servers_;
+
+  // Must be the last member, as the thread, once started, uses the members above.
+  std::thread thread_;
 };
 
 }  // namespace http
-- 
2.43.0


From 4f11fba77ee9e23b172d928d0f290c60872957df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 40/88] fix: negative or out of range sizes of HTTP chunks
 terminated the process

---
 bricks/net/http/impl/server.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index 142fb77..82daca7 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -485,8 +485,12 @@ class GenericHTTPRequestData : public HELPER {
           if (!line_is_blank) {
             const size_t chunk_length = static_cast<size_t>([&]() {
               try {
-                return std::stoi(&buffer_[current_line_offset], nullptr, 16);
-              } catch (const std::invalid_argument&) {
+                const int value = std::stoi(&buffer_[current_line_offset], nullptr, 16);
+                if (value < 0) {
+                  throw std::out_of_range("Negative chunk size.");
+                }
+                return value;
+              } catch (const std::logic_error&) {  // `std::invalid_argument` or `std::out_of_range`.
                 // Not a valid hexadecimal chunk size. HTTP bad request is it.
                 HTTPResponder::SendHTTPResponse(c,
                                                 net::DefaultInvalidHEXChunkSizeBadRequestMessage(),
-- 
2.43.0


From 51659bfc3fb59abe297abc62dfe0d31851572a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 41/88] fix: Content-Length over 32 bits was truncated, not
 refused

---
 bricks/net/http/impl/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index 82daca7..8a12670 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -566,7 +566,7 @@ class GenericHTTPRequestData : public HELPER {
 
             HELPER::OnHeader(key, value);
             if (HeaderNameEquals(key, constants::kContentLengthHeaderKey)) {
-              body_length = static_cast<size_t>(atoi(value));
+              body_length = static_cast<size_t>(strtoull(value, nullptr, 10));
               if (body_length > constants::kMaxHTTPPayloadSizeInBytes) {
                 HTTPResponder::SendHTTPResponse(c,
                                                 net::DefaultRequestEntityTooLargeMessage(),
-- 
2.43.0


From 6af2f93d9a0886b63a8a11897f7ea2749267c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 42/88] fix: BlockingRead() failed if interrupted by a signal,
 contrary to the comments on its loop

---
 bricks/net/tcp/impl/posix.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bricks/net/tcp/impl/posix.h b/bricks/net/tcp/impl/posix.h
index 1c1a6bf..65bae9b 100644
--- a/bricks/net/tcp/impl/posix.h
+++ b/bricks/net/tcp/impl/posix.h
@@ -415,7 +415,7 @@ class Connection : public SocketHandle {
 #endif
 
       CURRENT_BRICKS_NET_LOG("S%05d BlockingRead() ...\n", static_cast<SOCKET>(socket));
-      do {
+      while (true) {
         const size_t remaining_bytes_to_read = (max_length - (ptr - buffer));
         CURRENT_BRICKS_NET_LOG("S%05d BlockingRead() ... attempting to read %d bytes.\n",
                                static_cast<SOCKET>(socket),
@@ -440,11 +440,13 @@ class Connection : public SocketHandle {
         }
 
 #ifndef CURRENT_WINDOWS
-        if (errno == EAGAIN) {  // LCOV_EXCL_LINE
-          continue;             // LCOV_EXCL_LINE
+        if (retval == 0) {
+          errno = 0;  // The connection was closed, `errno` is not set in this case.
+        } else if (errno == EAGAIN || errno == EINTR) {  // LCOV_EXCL_LINE
+          continue;                                      // LCOV_EXCL_LINE
         }
 #else
-        wsa_last_error = ::WSAGetLastError();
+        wsa_last_error = (retval == 0) ? 0 : ::WSAGetLastError();
         if (wsa_last_error == WSAEWOULDBLOCK || wsa_last_error == WSAEINPROGRESS || wsa_last_error == WSAENETDOWN) {
           // Effectively, `errno == EAGAIN`.
           continue;
@@ -453,10 +455,11 @@ class Connection : public SocketHandle {
 
         // Only keep looping via `continue`.
         // There are two ways:
-        // 1) `EAGAIN` or a Windows equivalent has been returned.
+        // 1) `EAGAIN`, `EINTR`, or a Windows equivalent has been returned.
         // 2) `retval > 0`, not all the data has been read, and mode is `BlockingReadPolicy::FillFullBuffer`.
-        //    (Really, just a safety check).
-      } while (false);
+        //    (This is what happens if the read has been interrupted by a signal.)
+        break;
+      }
 
 // LCOV_EXCL_START
 #ifndef CURRENT_WINDOWS
-- 
2.43.0


From 15e9d3658da6ad9b691b8426fb7a711f24f23bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 43/88] fix: page boundaries of Hypermedia overflowed if the
 page size is huge

---
 storage/rest/hypermedia.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/storage/rest/hypermedia.h b/storage/rest/hypermedia.h
index a0aa1bd..21de24e 100644
--- a/storage/rest/hypermedia.h
+++ b/storage/rest/hypermedia.h
@@ -124,7 +124,10 @@ struct HypermediaResponseFormatter {
     bool has_previous_page = false;
     bool has_next_page = false;
     uint64_t current_index = 0;
-    response.data.reserve(static_cast<size_t>(context.query_n));
+    // Neither `i` nor `n` have been validated, so take care of `i + n` overflowing, and of not reserving too much.
+    const uint64_t page_begin = std::min(context.query_i, static_cast<uint64_t>(total));
+    const uint64_t page_end = page_begin + std::min(context.query_n, static_cast<uint64_t>(total) - page_begin);
+    response.data.reserve(static_cast<size_t>(page_end - page_begin));
     for (auto iterator = span.begin(); iterator != span.end(); ++iterator) {
       using iterator_t = decltype(iterator);
       // NOTE(dkorolev): This `iterator` can be of more than three different kinds, among which are:
@@ -134,16 +137,16 @@ struct HypermediaResponseFormatter {
       //    where SE stands for SingleElement.
       // 4) GenericMapAccessor<>.
       // To keep the generic code generic, it's accesses as `iterator`, not via a range-based loop.
-      if (current_index >= context.query_i && current_index < context.query_i + context.query_n) {
+      if (current_index >= page_begin && current_index < page_end) {
         response.data.resize(response.data.size() + 1);
         collection_element_t& record = response.data.back();
 
         record.url = collection_url + '/' + ComposeRESTfulKey<PARTICULAR_FIELD, ENTRY>(iterator);
         PopulateCollectionRecord<ENTRY, typename current::decay_t<typename iterator_t::value_t>>::DoIt(
             record.DataOrBriefByRef(), iterator);
-      } else if (current_index < context.query_i) {
+      } else if (current_index < page_begin) {
         has_previous_page = true;
-      } else if (current_index >= context.query_i + context.query_n) {
+      } else if (current_index >= page_end) {
         has_next_page = true;
         break;
       }
-- 
2.43.0


From 164584739b0e20bbb8ec6615294f721bd1f27a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 44/88] fix: a file of unknown MIME type in a hidden directory
 failed ServeStaticFilesFrom(), not ignored

---
 blocks/http/impl/posix_server.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index d8b790d..b216a86 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -291,6 +291,13 @@ class HTTPServerPOSIX final {
             return;
           }
 
+          // Ignore files nested in directories named with a leading dot (means hidden in POSIX), of any MIME type too.
+          for (const auto& component : item_info.path_components_cref) {
+            if (component.front() == '.') {
+              return;
+            }
+          }
+
           const std::string content_type(current::net::GetFileMimeType(item_info.basename, ""));
           if (!content_type.empty()) {
             const bool path_components_empty = item_info.path_components_cref.empty();
@@ -303,11 +310,6 @@ class HTTPServerPOSIX final {
             CURRENT_ASSERT(route_for_directory == "/" ||
                            (route_for_directory.front() == '/' && route_for_directory.back() != '/'));
 
-            // Ignore files nested in directories named with a leading dot (means hidden in POSIX).
-            if (route_for_directory.find("/.") != std::string::npos) {
-              return;
-            }
-
             // `route_for_file` must have leading slash and must not have trailing slash.
             const std::string route_for_file =
                 route_for_directory + (route_for_directory == "/" ? "" : "/") + item_info.basename;
-- 
2.43.0


From 51a81cfff5565bd8fc7fd6b01be6763300173f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 45/88] fix: RipCurrent messages emitted from several threads
 at once were lost, with a fatal error, as their timestamps were taken outside
 the lock

---
 ripcurrent/ripcurrent.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ripcurrent/ripcurrent.h b/ripcurrent/ripcurrent.h
index ab60867..c777518 100644
--- a/ripcurrent/ripcurrent.h
+++ b/ripcurrent/ripcurrent.h
@@ -226,6 +226,7 @@ class SharedDefinition<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>> {
 class GenericBlockOutgoingInterface {
  public:
   virtual ~GenericBlockOutgoingInterface() = default;
+  virtual void OnThreadUnsafeEmitted(movable_message_t&&) = 0;  // The timestamp is the time when it is queued.
   virtual void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeScheduled(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeHeadUpdated(std::chrono::microseconds) = 0;
@@ -241,6 +242,10 @@ class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<TYPES...>> : public Gener
 template <>
 class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<>> : public GenericBlockOutgoingInterface {
  public:
+  void OnThreadUnsafeEmitted(movable_message_t&&) override {
+    std::cerr << "Not expecting any entries from a non-emitting block.\n";
+    CURRENT_ASSERT(false);
+  }
   void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) override {
     std::cerr << "Not expecting any entries from a non-emitting block.\n";
     CURRENT_ASSERT(false);
@@ -492,8 +497,7 @@ class CallsGeneratingBlock<EmittableTypes<EMITTED_TYPES...>> : public GenericCal
   template <typename T, typename... ARGS>
   std::enable_if_t<TypeListContains<TypeListImpl<EMITTED_TYPES...>, T>::value> emit(ARGS&&... args) const {
     // A seemingly unnecessary `release()` is due to `std::make_unique()` not supporting a custom deleter. -- D.K
-    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()),
-                                    time::Now());
+    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()));
   }
 
   template <typename T, typename... ARGS>
@@ -712,6 +716,13 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         waitable_counters_.Wait([](const ThreadMessageCounters& counters) { return counters.ProcessedEverything(); });
       }
 
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override {
+        // Messages may well be emitted from several threads at once. Get the time under the same lock under which
+        // it is used, as otherwise the timestamps may turn out to be not increasing, and the message would be lost.
+        std::lock_guard<std::mutex> lock(emit_mutex_);
+        OnThreadUnsafeEmitted(std::move(x), time::Now());
+      }
+
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportPublishCalled(); });
         try {
@@ -775,6 +786,7 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         std::shared_ptr<BlockIncomingInterface<ThreadSafeIncomingTypes<VIA_X, VIA_XS...>>> next_;
       };
 
+      std::mutex emit_mutex_;
       WaitableAtomic<ThreadMessageCounters> waitable_counters_;
       current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t> single_threaded_processor_;
       mmq::MMPQ<movable_message_t, current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t>> mmpq_;
@@ -896,6 +908,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
     struct PassOnToNextA : BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<A_RHS...>> {
       std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next;
       PassOnToNextA(std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next) : next(next) {}
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override { next->OnThreadUnsafeEmitted(std::move(x)); }
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
@@ -907,6 +920,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
     struct PassOnToNextB : BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<B_RHS...>> {
       std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next;
       PassOnToNextB(std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next) : next(next) {}
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override { next->OnThreadUnsafeEmitted(std::move(x)); }
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
-- 
2.43.0


From 83c0b2aa2fbf2387a0b1a7a6a35152ae600891cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 46/88] fix: NamedRegexCapturer counted lookaheads, escaped and
 bracketed parentheses as capture groups

---
 bricks/strings/regex.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/bricks/strings/regex.h b/bricks/strings/regex.h
index aca81a9..a7ec94b 100644
--- a/bricks/strings/regex.h
+++ b/bricks/strings/regex.h
@@ -64,20 +64,25 @@ class NamedRegexCapturer {
 
     Data(std::string re_body) {
       // This regex requires explanation.
-      // 1) Must begin with a non-escaped "(".
-      // 2) Must not begin with "(?:" or "(?=".
-      // 3) May, but does not have to be "(?<...>").
-      const std::regex re_capture_groups("\\((?!\\?:)(?!\\?=)(\\?<(\\w+)>)?");
-      for (const auto& capture_group : current::strings::IterateByRegexMatches(re_capture_groups, re_body)) {
-        if (!capture_group.position() || re_body[capture_group.position() - 1u] != '\\') {
-          const std::string name = capture_group[2].str();
+      // 1) Escaped characters, as well as character classes, are skipped as a whole.
+      // 2) Otherwise, a capture group begins with "(".
+      // 3) It must not begin with "(?:", "(?=", or "(?!".
+      // 4) May, but does not have to be "(?<...>").
+      const std::regex re_capture_groups(
+          "\\\\[\\s\\S]|\\[(?:\\\\[\\s\\S]|[^\\]\\\\])*\\]|(\\()(?!\\?:)(?!\\?=)(?!\\?!)(\\?<(\\w+)>)?");
+      size_t copied = 0u;
+      for (const auto& match : current::strings::IterateByRegexMatches(re_capture_groups, re_body)) {
+        if (match[1].matched) {
+          const std::string name = match[3].str();
           if (!name.empty()) {
             group_indexes[name] = group_names.size() + 1u;
           }
           group_names.push_back(name);
+          transformed_re_body.append(re_body, copied, match.position() + 1u - copied);
+          copied = match.position() + match.length();
         }
       }
-      transformed_re_body = std::regex_replace(re_body, re_capture_groups, "(");
+      transformed_re_body.append(re_body, copied, std::string::npos);
       transformed_re = std::regex(transformed_re_body);
     }
   };
-- 
2.43.0


From 2b00ea13a42acc569488fd2af90431b52b8ac178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 47/88] fix: FromString() of a number or an enum with a
 one-byte underlying type read characters, or uninitialized memory

---
 bricks/strings/util.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bricks/strings/util.h b/bricks/strings/util.h
index 38bd585..8cb5bfd 100644
--- a/bricks/strings/util.h
+++ b/bricks/strings/util.h
@@ -180,12 +180,14 @@ struct FromStringImpl<INPUT, OUTPUT, false, true> {
   static const OUTPUT& Go(INPUT&& input, OUTPUT& output) {
     std::istringstream is(input);
     using underlying_output_t = typename std::underlying_type<OUTPUT>::type;
-    underlying_output_t underlying_output;
-    if (!(is >> underlying_output)) {
+    // The unary plus is for the underlying `int8_t` and `uint8_t`, which `std::istringstream` would read as `char`-s.
+    using parsed_output_t = decltype(+underlying_output_t());
+    parsed_output_t parsed_output;
+    if (!(is >> parsed_output)) {
       // Default initializer, zero for primitive types.
-      underlying_output = underlying_output_t();
+      parsed_output = parsed_output_t();
     }
-    output = static_cast<OUTPUT>(underlying_output);
+    output = static_cast<OUTPUT>(static_cast<underlying_output_t>(parsed_output));
     return output;
   }
 };
@@ -206,7 +208,9 @@ struct FromStringImpl<INPUT, int8_t, false, false> {
   static const int8_t& Go(const std::string& input, int8_t& output) {
     std::istringstream is(input);
     int value;
-    is >> value;
+    if (!(is >> value)) {
+      value = 0;
+    }
     output = static_cast<int8_t>(value);
     return output;
   }
@@ -217,7 +221,9 @@ struct FromStringImpl<INPUT, uint8_t, false, false> {
   static const uint8_t& Go(const std::string& input, uint8_t& output) {
     std::istringstream is(input);
     int value;
-    is >> value;
+    if (!(is >> value)) {
+      value = 0;
+    }
     output = static_cast<uint8_t>(value);
     return output;
   }
-- 
2.43.0


From d4bbe6e2e056772f412d9a1e2cd3b390c25783b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 48/88] fix: RoundDoubleToString() kept one digit less for
 values just below a power of ten

---
 bricks/strings/rounding.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bricks/strings/rounding.h b/bricks/strings/rounding.h
index 4444be6..163f9b3 100644
--- a/bricks/strings/rounding.h
+++ b/bricks/strings/rounding.h
@@ -50,7 +50,11 @@ inline std::string RoundDoubleToString(double value, size_t n_digits, bool plus_
     return "0";
   }
 
-  const int dim = static_cast<int>(std::ceil(std::log(value) / std::log(10.0) + 1e-10));
+  int dim = static_cast<int>(std::ceil(std::log(value) / std::log(10.0) + 1e-10));
+  if (value < std::pow(10.0, dim - 1)) {
+    // The corner case of a value just below the power of ten.
+    --dim;
+  }
   uint64_t mod = static_cast<uint64_t>(std::pow(10.0, n_digits));
 
   const int log10_multiplier = static_cast<int>(n_digits) - dim;
-- 
2.43.0


From 300363358d0ac6bbf15aebca614d414f871f5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 49/88] fix: hash function of Chunk converted negative values
 into unsigned

---
 bricks/strings/chunk.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bricks/strings/chunk.h b/bricks/strings/chunk.h
index ee5b4a7..67857cc 100644
--- a/bricks/strings/chunk.h
+++ b/bricks/strings/chunk.h
@@ -151,7 +151,9 @@ class Chunk {
       for (size_t i = 0; i < chunk.N; ++i, k = cos(k + i)) {
         hash += k * chunk.S[i];
       }
-      return static_cast<size_t>(hash) ^ static_cast<size_t>(hash * 0x100) ^ static_cast<size_t>(hash * 0x10000);
+      // NOTE: The value may well be negative, and converting it directly into an unsigned type is undefined behavior.
+      const auto to_size_t = [](double x) { return static_cast<size_t>(static_cast<int64_t>(x)); };
+      return to_size_t(hash) ^ to_size_t(hash * 0x100) ^ to_size_t(hash * 0x10000);
     }
   };
 
-- 
2.43.0


From 81182e22fd9e0b9f9a92b96227f5f9f4f21e7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 50/88] fix: StatefulGroupByLines dropped the rest of the
 std::string past the zero byte

---
 bricks/strings/group_by_lines.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bricks/strings/group_by_lines.h b/bricks/strings/group_by_lines.h
index ae25ff0..f364eaf 100644
--- a/bricks/strings/group_by_lines.h
+++ b/bricks/strings/group_by_lines.h
@@ -33,6 +33,7 @@ SOFTWARE.
 #include "../template/weed.h"
 #endif  // CURRENT_FOR_CPP14
 
+#include <cstring>
 #include <deque>
 #include <functional>
 #include <string>
@@ -93,8 +94,9 @@ class GenericStatefulGroupByLines final {
 
  public:
   explicit GenericStatefulGroupByLines(F&& f) : f_(std::move(f)) {}
-  void Feed(const std::string& s) { Feed(s.c_str()); }
-  void Feed(const char* s) {
+  void Feed(const std::string& s) { Feed(s.data(), s.data() + s.length()); }
+  void Feed(const char* s) { Feed(s, s + ::strlen(s)); }
+  void Feed(const char* s, const char* const end) {
     if (done_called_) {
       CURRENT_THROW(GroupByLinesFeedCaledAfterDone());
     }
@@ -108,10 +110,10 @@ class GenericStatefulGroupByLines final {
       // the `GenericStatefulGroupByLines` instance is destroyed (in the `E == GroupByLinesExceptions::Prohibit` mode),
       // or the `.Done()` method is called (in the `GroupByLinesExceptions::Allow` mode).
       while (true) {
-        while (*s && *s != '\n') {
+        while (s != end && *s != '\n') {
           residual_ += *s++;
         }
-        if (*s == '\n') {
+        if (s != end) {
           ++s;
           std::string extracted;
           residual_.swap(extracted);
-- 
2.43.0


From c9d00a2c0a6d42741cfdaa6cc2535f5f7f05bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 51/88] fix: Split() by a string literal split by the zero byte
 too

---
 bricks/strings/split.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bricks/strings/split.h b/bricks/strings/split.h
index 67f6df1..acd08ee 100644
--- a/bricks/strings/split.h
+++ b/bricks/strings/split.h
@@ -86,7 +86,9 @@ struct MatchImpl<std::string> {
 template <size_t N>
 struct MatchImpl<const char[N]> {
   enum { valid_separator = true };
-  static std::enable_if_t<(N > 0), bool> Match(char c, const char s[N]) { return std::find(s, s + N, c) != (s + N); }
+  static std::enable_if_t<(N > 0), bool> Match(char c, const char s[N]) {
+    return std::find(s, s + N - 1, c) != (s + N - 1);  // Do not include the '\0' character.
+  }
 };
 
 template <typename T>
-- 
2.43.0


From 93be98988766b51612f5567bb2394dc46929e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 52/88] fix: SHA256 formed a pointer out of bounds of the
 buffer

---
 3rdparty/stephan-brumme/sha256.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/stephan-brumme/sha256.h b/3rdparty/stephan-brumme/sha256.h
index 7faf72e..beae49e 100644
--- a/3rdparty/stephan-brumme/sha256.h
+++ b/3rdparty/stephan-brumme/sha256.h
@@ -436,7 +436,7 @@ private:
     if (paddedLength < BlockSize)
       addLength = m_buffer + paddedLength;
     else
-      addLength = extra + paddedLength - BlockSize;
+      addLength = extra + (paddedLength - BlockSize);
 
     // must be big endian
     *addLength++ = (msgBits >> 56) & 0xFF;
-- 
2.43.0


From da22289bdf0beff0a31ab1f876292b9ae6e05cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 53/88] fix: an Optional holding a bare pointer lost the value
 when moved

---
 typesystem/optional.h | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/typesystem/optional.h b/typesystem/optional.h
index aa6b0a6..34a6dfd 100644
--- a/typesystem/optional.h
+++ b/typesystem/optional.h
@@ -331,14 +331,9 @@ class Optional<T, std::enable_if_t<!std::is_pod<T>::value>> final {
     optional_object_ = owned_optional_object_.get();
   }
 
-  Optional(Optional<T>&& rhs) {
-    if (rhs.ExistsImpl()) {
-      owned_optional_object_ = std::move(rhs.owned_optional_object_);
-      rhs = nullptr;
-    } else {
-      owned_optional_object_ = nullptr;
-    }
-    optional_object_ = owned_optional_object_.get();
+  Optional(Optional<T>&& rhs)
+      : owned_optional_object_(std::move(rhs.owned_optional_object_)), optional_object_(rhs.optional_object_) {
+    rhs = nullptr;
   }
 
   Optional(const ImmutableOptional<T>& rhs) {
@@ -399,13 +394,11 @@ class Optional<T, std::enable_if_t<!std::is_pod<T>::value>> final {
   }
 
   Optional<T>& operator=(Optional<T>&& rhs) {
-    if (rhs.ExistsImpl()) {
+    if (this != &rhs) {
       owned_optional_object_ = std::move(rhs.owned_optional_object_);
+      optional_object_ = rhs.optional_object_;
       rhs = nullptr;
-    } else {
-      owned_optional_object_ = nullptr;
     }
-    optional_object_ = owned_optional_object_.get();
     return *this;
   }
 
-- 
2.43.0


From 0ef373212766009378e033ed6c3dcc62bfd85d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 54/88] fix: an Optional constructed from a missing
 ImmutableOptional left its value uninitialized

---
 typesystem/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typesystem/optional.h b/typesystem/optional.h
index 34a6dfd..848dbe5 100644
--- a/typesystem/optional.h
+++ b/typesystem/optional.h
@@ -231,7 +231,7 @@ class Optional<T, std::enable_if_t<std::is_pod<T>::value>> final {
     rhs.exists_ = false;
   }
 
-  Optional(const ImmutableOptional<T>& rhs) {
+  Optional(const ImmutableOptional<T>& rhs) : value_() {
     exists_ = rhs.ExistsImpl();
     if (exists_) {
       value_ = rhs.ValueImpl();
-- 
2.43.0


From 5351935a859d611bc96f7ce3c299d72a4ec59449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 55/88] fix: a moved-from ScopeGuard still ran its action

---
 bricks/util/make_scope_guard.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bricks/util/make_scope_guard.h b/bricks/util/make_scope_guard.h
index 8dad5f9..8ae0b7f 100644
--- a/bricks/util/make_scope_guard.h
+++ b/bricks/util/make_scope_guard.h
@@ -38,13 +38,18 @@ std::unique_ptr<POINTER, DELETER> MakePointerScopeGuard(POINTER* x, DELETER t =
 template <typename F>
 class ScopeGuard final {
   F f_;
+  bool active_ = true;
   ScopeGuard(const ScopeGuard&) = delete;
   void operator=(const ScopeGuard&) = delete;
 
  public:
   explicit ScopeGuard(F f) : f_(f) {}
-  ScopeGuard(ScopeGuard&& other) : f_(std::forward<F>(other.f_)) {}
-  ~ScopeGuard() { f_(); }
+  ScopeGuard(ScopeGuard&& other) : f_(std::forward<F>(other.f_)), active_(other.active_) { other.active_ = false; }
+  ~ScopeGuard() {
+    if (active_) {
+      f_();
+    }
+  }
 };
 
 template <typename F>
-- 
2.43.0


From c5a70503e92b872d1e33869a3a69e800f7a799bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 56/88] fix: TimeIntervalAsHumanReadableString() rounded
 microseconds as a double, off by a second for long intervals

---
 bricks/strings/time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/strings/time.h b/bricks/strings/time.h
index 71b6bce..618efd0 100644
--- a/bricks/strings/time.h
+++ b/bricks/strings/time.h
@@ -34,7 +34,7 @@ inline std::string TimeIntervalAsHumanReadableString(std::chrono::microseconds u
   if (us.count() < 0) {
     return '-' + TimeIntervalAsHumanReadableString(-us);
   }
-  size_t seconds = static_cast<size_t>(us.count() * 1e-6);
+  size_t seconds = static_cast<size_t>(us.count() / 1000000);
   if (seconds < 60) {
     return ToString(seconds) + 's';
   } else {
-- 
2.43.0


From e6bd61f740ce7492149abcd33941521742bf7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 57/88] fix: WriteStringToFile() did not report failing to
 write the contents, still buffered, when closing the file

---
 bricks/file/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index d93f7c8..12487b1 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -120,6 +120,7 @@ struct FileSystem {
       fo.exceptions(std::ofstream::failbit | std::ofstream::badbit);
       fo.open(file_name, (append ? std::ofstream::app : std::ofstream::trunc) | std::ofstream::binary);
       fo << contents;
+      fo.close();
     } catch (const std::ofstream::failure&) {
       CURRENT_THROW(FileException(file_name));
     }
-- 
2.43.0


From 5c4e0cd60bd688bba6ef17a71a245585d2dfc4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 58/88] fix: ReadFileByLines() silently reported no lines for a
 file that does not exist or can not be read

---
 bricks/file/file.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 12487b1..8ab861f 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -99,13 +99,16 @@ struct FileSystem {
   static inline void ReadFileByLines(const std::string& file_name, F&& f) {
     try {
       std::ifstream fi(file_name);
-      if (fi.bad()) {
+      if (fi.fail()) {
         CURRENT_THROW(CannotReadFileException(file_name));
       }
       std::string line;
       while (std::getline(fi, line)) {
         f(std::move(line));
       }
+      if (fi.bad()) {
+        CURRENT_THROW(CannotReadFileException(file_name));
+      }
     } catch (const std::ifstream::failure&) {
       CURRENT_THROW(CannotReadFileException(file_name));
     }
-- 
2.43.0


From d2ac6637e5d3382744bfdf3d3d0302344a7514fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 59/88] fix: ReadFileAsString() of a directory threw
 std::length_error, not CannotReadFileException

---
 bricks/file/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 8ab861f..0e237fc 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -81,6 +81,7 @@ struct FileSystem {
       std::ifstream fi;
       fi.exceptions(std::ifstream::failbit | std::ifstream::badbit);
       fi.open(file_name, std::ifstream::binary);
+      fi.peek();  // Fails if it is a directory, for which `tellg()` would return some meaningless huge value.
       fi.seekg(0, std::ios::end);
       const size_t size = static_cast<size_t>(fi.tellg());
       std::string buffer(size, '\0');
-- 
2.43.0


From e25a32c856b8e5a909adfcfe9f9bfdde7da58447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 60/88] fix: recursive ScanDirUntil() carried on with the
 directory above after told to stop

---
 bricks/file/file.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 0e237fc..59fcb28 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -330,13 +330,20 @@ struct FileSystem {
     } else {
       // Inner lambdas have distinct types thus creating template instantiation limit,
       // which is fixed by casting the lambda to its canonical type.
+      // Once told to stop by the handler, stop at all the levels.
+      bool stopped = false;
+      const std::function<bool(const ScanDirItemInfo&)> handler =
+          [&item_handler, &stopped](const ScanDirItemInfo& item_info) {
+            stopped = !item_handler(item_info);
+            return !stopped;
+          };
       ScanDirUntil(directory,
                    static_cast<const std::function<bool(const ScanDirItemInfo&)>>(
-                       [&item_handler, parameters, &context](const ScanDirItemInfo& item_info) {
+                       [&handler, parameters, &context, &stopped](const ScanDirItemInfo& item_info) {
                          const ScanDirParameters mask = item_info.is_directory ? ScanDirParameters::ListDirsOnly
                                                                                : ScanDirParameters::ListFilesOnly;
                          if (static_cast<int>(parameters) & static_cast<int>(mask)) {
-                           if (!item_handler(item_info)) {
+                           if (!handler(item_info)) {
                              return false;
                            }
                          }
@@ -344,13 +351,9 @@ struct FileSystem {
                            context.path_components.push_back(item_info.basename);
                            const auto guard =
                                current::MakeScopeGuard([&context]() { context.path_components.pop_back(); });
-                           ScanDirUntil<ITEM_HANDLER>(item_info.pathname,
-                                                      std::forward<ITEM_HANDLER>(item_handler),
-                                                      parameters,
-                                                      ScanDirRecursive::Yes,
-                                                      context);
+                           ScanDirUntil(item_info.pathname, handler, parameters, ScanDirRecursive::Yes, context);
                          }
-                         return true;
+                         return !stopped;
                        }),
                    ScanDirParameters::ListFilesAndDirs,
                    ScanDirRecursive::No,
-- 
2.43.0


From 9aa3eb5fa818b276082dccffa0c39325974df119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 61/88] fix: ScanDir() failed on a dangling symbolic link, or a
 file removed in the meantime

---
 bricks/file/file.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 59fcb28..8242105 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -302,11 +302,13 @@ struct FileSystem {
         while (struct dirent* entry = ::readdir(dir)) {
           const char* const name = entry->d_name;
           if (ScanDirCanHandleName(name)) {
-            // `IsDir` is proved to be required on Ubuntu running in Parallels on a Mac,
+            // `stat` is proved to be required on Ubuntu running in Parallels on a Mac,
             // with Bricks' directory mounted from Mac's filesystem.
             // `entry->d_type` is always zero there, see http://comments.gmane.org/gmane.comp.lib.libcg.devel/4236
             std::string path = JoinPath(directory, name);
-            const bool is_directory = IsDir(path);
+            // What can not be looked into, such as a dangling symbolic link, is not a directory.
+            struct stat info;
+            const bool is_directory = !::stat(path.c_str(), &info) && S_ISDIR(info.st_mode);
             const ScanDirParameters mask =
                 is_directory ? ScanDirParameters::ListDirsOnly : ScanDirParameters::ListFilesOnly;
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
-- 
2.43.0


From c5abd3d1843b96ac2068455e340118dc860a9e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 62/88] fix: recursive RmDir() followed symbolic links,
 removing the contents of directories outside the one to remove

---
 bricks/file/file.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 8242105..a9934d2 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -401,6 +401,16 @@ struct FileSystem {
     std::string file_name_;
   };
 
+  static inline bool IsSymLink(const std::string& file_or_directory_name) {
+#ifndef CURRENT_WINDOWS
+    struct stat info;
+    return !::lstat(file_or_directory_name.c_str(), &info) && S_ISLNK(info.st_mode);
+#else
+    static_cast<void>(file_or_directory_name);
+    return false;
+#endif
+  }
+
   enum class RmDirParameters { ThrowExceptionOnError, Silent };
   enum class RmDirRecursive { No, Yes };
   static inline void RmDir(const std::string& directory,
@@ -431,7 +441,7 @@ struct FileSystem {
         ScanDir(
             directory,
             [parameters](const ScanDirItemInfo& item_info) {
-              if (item_info.is_directory) {
+              if (item_info.is_directory && !IsSymLink(item_info.pathname)) {
                 RmDir(item_info.pathname, parameters, RmDirRecursive::Yes);
               } else {
                 RmFile(item_info.pathname,
-- 
2.43.0


From 4defbf6fd8bd414f9e5acad9a800d07bf4cef825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 63/88] fix: GenTmpFileName() used an invalid range of random
 numbers

---
 bricks/file/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index a9934d2..3715297 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -133,7 +133,7 @@ struct FileSystem {
   static inline std::string GenTmpFileName() {
 #ifndef CURRENT_WINDOWS
     // TODO(dkorolev): Fix temporary file names generation.
-    return strings::Printf("/tmp/.current-tmp-%08x", random::CSRandomInt(0, ~0));
+    return strings::Printf("/tmp/.current-tmp-%08x", random::CSRandomUInt(0u, ~0u));
 #else
     char buffer[L_tmpnam_s];  // NOTE(dkorolev): Changed `[L_tmpnam]` into `[L_tmpnam_s]`, as per
                               // https://msdn.microsoft.com/en-us/library/18x8h1bh.aspx
-- 
2.43.0


From 48701795416502914efc38a229a9a790f7b35241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 64/88] fix: differentiating an expression with shared
 subexpressions took exponential time and space

---
 fncas/fncas/differentiate.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fncas/fncas/differentiate.h b/fncas/fncas/differentiate.h
index a32bf28..41861a5 100644
--- a/fncas/fncas/differentiate.h
+++ b/fncas/fncas/differentiate.h
@@ -223,6 +223,10 @@ inline node_index_t differentiate_node(node_index_t index, size_t var_index, siz
       stack.pop();
       const node_index_t dependent_i = ~i;
       if (i > dependent_i) {
+        if (growing_vector_access(df, i, static_cast<node_index_t>(-1)) != -1) {
+          // Already differentiated, as a subexpression shared by several other ones.
+          continue;
+        }
         node_impl& f = node_vector_singleton()[static_cast<size_t>(i)];
         if (f.type() == NodeType::variable && static_cast<size_t>(f.variable()) == var_index) {
           growing_vector_access(df, i, static_cast<node_index_t>(-1)) = one_index;
-- 
2.43.0


From fb0b901e475cded9585c5ca9c854dff72c8c80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 65/88] fix: a compiled gradient, once moved, returned the
 wrong values

---
 fncas/fncas/jit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fncas/fncas/jit.h b/fncas/fncas/jit.h
index e0009a2..d174796 100644
--- a/fncas/fncas/jit.h
+++ b/fncas/fncas/jit.h
@@ -118,7 +118,8 @@ struct compiled_expression final : noncopyable {
         heap_size_(std::move(rhs.heap_size_)),
         function_(std::move(rhs.function_)),
         gradient_(std::move(rhs.gradient_)),
-        lib_filename_(std::move(rhs.lib_filename_)) {
+        lib_filename_(std::move(rhs.lib_filename_)),
+        gradient_indexes_(std::move(rhs.gradient_indexes_)) {
     rhs.lib_ = nullptr;
   }
 
-- 
2.43.0


From 83f9766d513135375f70c3f4ccb65acca336c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:26 +0000
Subject: [PATCH 66/88] fix: a negative zero recorded by fncas replaced the
 zeroes recorded before it

---
 fncas/fncas/node.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fncas/fncas/node.h b/fncas/fncas/node.h
index 95a6f1a..6844008 100644
--- a/fncas/fncas/node.h
+++ b/fncas/fncas/node.h
@@ -130,6 +130,8 @@ struct internals_impl {
 
   // A hashmap of per-immediate-value-created nodes, to not create constants such as zeroes and ones way too often.
   std::unordered_map<double_t, node_index_t> allocated_values_map_;
+  // The negative zero equals zero, but is a different value.
+  std::unordered_map<double_t, node_index_t> allocated_negative_values_map_;
 
   void reset() {
     dim_ = 0;
@@ -138,6 +140,7 @@ struct internals_impl {
     df_.clear();
     heap_for_compiled_evaluations_.clear();
     allocated_values_map_.clear();
+    allocated_negative_values_map_.clear();
   }
 };
 
@@ -258,7 +261,9 @@ struct node_index_allocator {
     node_vector_singleton().resize(static_cast<size_t>(index_) + 1u);
   }
   node_index_allocator(allocate_for_double, double_t value) {
-    std::unordered_map<double_t, node_index_t>& map = internals_singleton().allocated_values_map_;
+    std::unordered_map<double_t, node_index_t>& map = std::signbit(value)
+                                                          ? internals_singleton().allocated_negative_values_map_
+                                                          : internals_singleton().allocated_values_map_;
     auto const cit = map.find(value);
     if (cit != map.end()) {
       index_ = cit->second;
-- 
2.43.0


From 056c2f13a1a02c7e1c37f02db911e10be58113a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 67/88] fix: escape backslashes and carriage returns in
 EscapeForCPlusPlus

A field description with a backslash made the C++ schema lose it, or not compile.
---
 bricks/strings/escape.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bricks/strings/escape.h b/bricks/strings/escape.h
index 41299ea..e6c84b0 100644
--- a/bricks/strings/escape.h
+++ b/bricks/strings/escape.h
@@ -40,6 +40,10 @@ inline std::string EscapeForCPlusPlus(const std::string& input) {
       output += "\\t";
     } else if (c == '\"') {
       output += "\\\"";
+    } else if (c == '\\') {
+      output += "\\\\";
+    } else if (c == '\r') {
+      output += "\\r";
     } else {
       output += c;
     }
-- 
2.43.0


From 6840f978a4ef19d213f0e96c615aa7632acd1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 68/88] fix: reflect std::array under its own type ID, not the
 one of std::vector

---
 typesystem/reflection/reflection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typesystem/reflection/reflection.h b/typesystem/reflection/reflection.h
index fbef558..199fb68 100644
--- a/typesystem/reflection/reflection.h
+++ b/typesystem/reflection/reflection.h
@@ -388,7 +388,7 @@ struct ReflectorImpl {
   ReflectedType operator()(TypeSelector<std::array<T, N>>) {
     ReflectType<T>();
     ReflectedType_Array result(CurrentTypeID<T>());
-    result.type_id = CurrentTypeID<std::vector<T>>();
+    result.type_id = CurrentTypeID<std::array<T, N>>();
     result.size = static_cast<uint64_t>(N);
     return ReflectedType(std::move(result));
   }
-- 
2.43.0


From 0ee5233c0da386edce7dc1a8f5ef2b43feff6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:30 +0000
Subject: [PATCH 69/88] fix: refuse "catch" as a TypeScript type name

---
 typesystem/schema/schema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typesystem/schema/schema.h b/typesystem/schema/schema.h
index e0402d3..bc35af8 100644
--- a/typesystem/schema/schema.h
+++ b/typesystem/schema/schema.h
@@ -1219,7 +1219,7 @@ struct LanguageSyntaxImpl<Language::TypeScript> final {
     // https://github.com/Microsoft/TypeScript/blob/2a6aacd0ef614a38b08ef712adc377c13648f373/doc/spec.md#2.2.1
     static std::set<std::string> typescript_reserved_words{
       // TypeScript keywords that are reserved and cannot be used as an Identifier:
-      "break", "case", " catch", "class", "const", "continue", "debugger", "default", "delete", "do",
+      "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do",
       "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "import", "in",
       "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof",
       "var", "void", "while", "with",
-- 
2.43.0


From 55cb3239b4e5f1c12336acd40f23709d96786304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 70/88] fix: misaligned reads in CompactTSV::Unpack

---
 compact_tsv/compact_tsv.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/compact_tsv/compact_tsv.h b/compact_tsv/compact_tsv.h
index aa5c53b..dac5256 100644
--- a/compact_tsv/compact_tsv.h
+++ b/compact_tsv/compact_tsv.h
@@ -29,6 +29,7 @@ SOFTWARE.
 // TODO(dkorolev): Move to fast strings.
 // TODO(batman): Exceptions.
 
+#include <cstring>
 #include <string>
 #include <type_traits>
 #include <unordered_map>
@@ -165,7 +166,7 @@ class CompactTSV {
       p += sizeof(index_type);
       CURRENT_ASSERT(p <= end);  // TODO(batman): Exception.
       if (index == markers().storage) {
-        const length_type length = *reinterpret_cast<const length_type*>(p);
+        const length_type length = Read<length_type>(p);
         p += sizeof(length_type);
         p += length;
         ++p;
@@ -180,11 +181,11 @@ class CompactTSV {
         dispatcher.Emit(std::forward<F>(f));
         ++total;
       } else {
-        const offset_type offset = *reinterpret_cast<const offset_type*>(p);
+        const offset_type offset = Read<offset_type>(p);
         p += sizeof(offset_type);
         dispatcher.Update(index,
                           reinterpret_cast<const char*>(data + offset + sizeof(length_type)),
-                          *reinterpret_cast<const length_type*>(data + offset));
+                          Read<length_type>(data + offset));
         CURRENT_ASSERT(p <= end);  // TODO(batman): Exception.
       }
     }
@@ -211,6 +212,14 @@ class CompactTSV {
   static_assert(std::is_unsigned<length_type>::value, "");
   static_assert(std::is_unsigned<offset_type>::value, "");
 
+  // The values are packed with no padding, and thus may well be misaligned.
+  template <typename T>
+  static T Read(const uint8_t* p) {
+    T result;
+    std::memcpy(&result, p, sizeof(T));
+    return result;
+  }
+
   struct Markers {
     const index_type row_done = static_cast<index_type>(0) - 2;  // 0xfe.
     const index_type storage = static_cast<index_type>(0) - 1;   // 0xff.
-- 
2.43.0


From 85e2cc97441463562e771db022396b323fdf2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 71/88] fix: out of bounds accesses of OT on malformed input,
 throw OTParseException instead

---
 utils/operational_transformation/ot.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/utils/operational_transformation/ot.h b/utils/operational_transformation/ot.h
index b254118..d2ad246 100644
--- a/utils/operational_transformation/ot.h
+++ b/utils/operational_transformation/ot.h
@@ -94,17 +94,29 @@ typename PROCESSOR::generate_output_result_t OT(const std::string& json, PROCESS
     for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(array_value.Size()); ++i) {
       const auto& element = array_value[i];
       if (element.IsString()) {
-        const auto s = std::wstring_convert<std::codecvt_utf8<wchar_t>>().from_bytes(
-            element.GetString(), element.GetString() + element.GetStringLength());
+        const std::wstring s = [&element]() -> std::wstring {
+          try {
+            return std::wstring_convert<std::codecvt_utf8<wchar_t>>().from_bytes(
+                element.GetString(), element.GetString() + element.GetStringLength());
+          } catch (const std::range_error&) {
+            CURRENT_THROW(OTParseException("OT element is not a valid UTF-8 string."));
+          }
+        }();
         rope.insert(rope.begin() + caret, s.begin(), s.end());
         caret += static_cast<int>(s.length());
       } else {
         if (!element.IsNumber()) {
           CURRENT_THROW(OTParseException("OT element is not a string or number."));
         }
-        const int v = element.GetInt();
+        if (!element.IsInt()) {
+          CURRENT_THROW(OTParseException("OT element is not an integer."));
+        }
+        const int64_t v = element.GetInt();
+        if ((v > 0 ? v : -v) > static_cast<int64_t>(rope.size()) - caret) {
+          CURRENT_THROW(OTParseException("OT element is beyond the end of the text."));
+        }
         if (v > 0) {
-          caret += v;
+          caret += static_cast<int>(v);
         } else {
           rope.erase(rope.begin() + caret, rope.begin() + caret + (-v));
         }
-- 
2.43.0


From 4e5b3d725fd9fcefb674c84d3ba7f43affda995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 72/88] fix: empty fields of a CSV row were skipped, shifting
 the columns

---
 utils/csv/csv.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/csv/csv.h b/utils/csv/csv.h
index c84b5f7..a21b425 100644
--- a/utils/csv/csv.h
+++ b/utils/csv/csv.h
@@ -63,7 +63,9 @@ CURRENT_STRUCT_T(CSV) {
     if (!line.empty() && line.back() == '\r') {
       line.resize(line.size() - 1u);  // NOTE(dkorolev): This may look like a hack, but I'd rather stay safe.
     }
-    csv.header = current::strings::Split(line, ',');
+    if (!line.empty()) {
+      csv.header = current::strings::Split(line, ',', current::strings::EmptyFields::Keep);
+    }
     if (csv.header.empty()) {
       CURRENT_THROW(CSVFileFormatException("The CSV file `" + filename + "` does not even contain the header."));
     }
@@ -72,7 +74,7 @@ CURRENT_STRUCT_T(CSV) {
         line.resize(line.size() - 1u);  // NOTE(dkorolev): This may look like a hack, but I'd rather stay safe.
       }
       std::vector<T> row;
-      for (const auto& field : current::strings::Split(line, ',')) {
+      for (const auto& field : current::strings::Split(line, ',', current::strings::EmptyFields::Keep)) {
         row.push_back(current::FromString<T>(field));
       }
       if (row.size() != csv.header.size()) {
-- 
2.43.0


From e49174a092495d0b67d4309c60ddbef64fcfddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 73/88] fix: parse 8-bit integer flags as numbers, not as
 characters

---
 bricks/dflags/dflags.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bricks/dflags/dflags.h b/bricks/dflags/dflags.h
index d92eada..206b511 100644
--- a/bricks/dflags/dflags.h
+++ b/bricks/dflags/dflags.h
@@ -64,6 +64,7 @@ int main(int argc, char** argv) {
 #include <cstring>
 #include <functional>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
@@ -120,6 +121,28 @@ inline bool FromStringSupportingStringAndBool(const std::string& from, T& to) {
   return static_cast<bool>(is >> to);
 }
 
+// The 8-bit integers are numbers, not characters.
+template <typename T>
+inline bool FromStringParsing8BitInteger(const std::string& from, T& to) {
+  std::istringstream is(from);
+  int value;
+  if (!(is >> value) || value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max()) {
+    return false;
+  }
+  to = static_cast<T>(value);
+  return true;
+}
+
+template <>
+inline bool FromStringSupportingStringAndBool(const std::string& from, int8_t& to) {
+  return FromStringParsing8BitInteger(from, to);
+}
+
+template <>
+inline bool FromStringSupportingStringAndBool(const std::string& from, uint8_t& to) {
+  return FromStringParsing8BitInteger(from, to);
+}
+
 template <>
 inline bool FromStringSupportingStringAndBool(const std::string& from, std::string& to) {
   to = from;
-- 
2.43.0


From c433fa6ae4f3970b95b48d7381e3d481fd1f786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 74/88] fix: assigning to a socket leaked the descriptor it
 owned, and keeping its port bound

---
 bricks/net/tcp/impl/posix.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bricks/net/tcp/impl/posix.h b/bricks/net/tcp/impl/posix.h
index 65bae9b..7a36d58 100644
--- a/bricks/net/tcp/impl/posix.h
+++ b/bricks/net/tcp/impl/posix.h
@@ -243,8 +243,11 @@ class SocketHandle : private SocketSystemInitializer {
   SocketHandle(const SocketHandle&) = delete;
   void operator=(const SocketHandle&) = delete;
   void operator=(SocketHandle&& rhs) {
-    socket_ = rhs.socket_;
-    rhs.socket_ = static_cast<SOCKET>(-1);
+    if (this != &rhs) {
+      // Hand the presently owned descriptor, if any, over to `previous`, to have it closed.
+      const SocketHandle previous(std::move(*this));
+      std::swap(socket_, rhs.socket_);
+    }
   }
 };
 
@@ -580,7 +583,6 @@ class Socket final : public SocketHandle {
 
   Socket& operator=(Socket&& rhs) {
     *static_cast<SocketHandle*>(this) = std::move(rhs);
-    rhs.socket_ = static_cast<SOCKET>(-1);
     return *this;
   }
 
-- 
2.43.0


From 300498758dcd7d7534717ee31091e8d3d2ee9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 75/88] fix: infer: an array of nothing but nulls yielded
 `std::vector<>`, which does not compile

---
 utils/json_schema/infer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 4ddfe29..81b063a 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -668,6 +668,10 @@ class SchemaToCurrentStructPrinter {
 
     void operator()(const Array& x) {
       x.element.Call(Printer(os, prefix + "_Element", output_type, output_comment));
+      if (output_type.empty()) {
+        // Nothing but `null`-s in the array, so there is no type for its elements.
+        return;
+      }
       output_type = "std::vector<" + output_type + ">";
 
       // For both arrays and objects.
-- 
2.43.0


From 4086a95a699b42cd84353776f63b6dc4e2605fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 76/88] fix: infer: the standard deviation of equal values
 could be reported as NaN

---
 utils/json_schema/infer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 81b063a..7b7922a 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -572,7 +572,7 @@ class HumanReadableSchemaExporter {
   void DumpMeanAndStddev(const T& x) {
     const uint64_t n = x.instances;
     const double mean = 1.0 * x.sum / n;
-    const double stddev = std::sqrt((1.0 * x.sum_squares / n) - (mean * mean));
+    const double stddev = std::sqrt(std::max(0.0, (1.0 * x.sum_squares / n) - (mean * mean)));
     os_ << "\tMean " << mean << ", StdDev " << stddev << '\n';
   }
 
-- 
2.43.0


From 5fa41633894bc56a51597f9ba2b061f9f9f2a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 77/88] fix: infer: objects under `a.b` and `a_b` yielded two
 structures of the same name

---
 utils/json_schema/infer.h | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 7b7922a..145581d 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -639,9 +639,18 @@ class SchemaToCurrentStructPrinter {
     const std::string prefix;
     std::string& output_type;
     std::string& output_comment;
-
-    Printer(std::ostream& os, const std::string& prefix, std::string& output_type, std::string& output_comment)
-        : os(os), prefix(prefix), output_type(output_type), output_comment(output_comment) {}
+    std::unordered_set<std::string>& struct_names;
+
+    Printer(std::ostream& os,
+            const std::string& prefix,
+            std::string& output_type,
+            std::string& output_comment,
+            std::unordered_set<std::string>& struct_names)
+        : os(os),
+          prefix(prefix),
+          output_type(output_type),
+          output_comment(output_comment),
+          struct_names(struct_names) {}
 
     void operator()(const Uninitialized&) {
       output_type = "";
@@ -667,7 +676,7 @@ class SchemaToCurrentStructPrinter {
     void operator()(const Bool& x) { output_type = x.nulls ? "Optional<bool>" : "bool"; }
 
     void operator()(const Array& x) {
-      x.element.Call(Printer(os, prefix + "_Element", output_type, output_comment));
+      x.element.Call(Printer(os, prefix + "_Element", output_type, output_comment, struct_names));
       if (output_type.empty()) {
         // Nothing but `null`-s in the array, so there is no type for its elements.
         return;
@@ -680,8 +689,18 @@ class SchemaToCurrentStructPrinter {
       }
     }
 
+    // The paths to two different objects may well result in the same name, ex. `a.b` and `a_b`.
+    std::string UniqueStructName() {
+      const std::string base = prefix + "_Object";
+      std::string name = base;
+      for (size_t i = 2u; !struct_names.insert(name).second; ++i) {
+        name = base + '_' + ToString(i);
+      }
+      return name;
+    }
+
     void operator()(const Object& x) {
-      output_type = prefix + "_Object";
+      output_type = UniqueStructName();
       // [ { name, { type, comment } ].
       std::vector<std::pair<std::string, std::pair<std::string, std::string>>> output_fields;
       output_fields.reserve(x.field_schema.size());
@@ -692,7 +711,7 @@ class SchemaToCurrentStructPrinter {
         std::string& type = output_field.second.first;
         std::string& comment = output_field.second.second;
         field_name = input_field.first;
-        input_field.second.Call(Printer(os, prefix + '_' + field_name, type, comment));
+        input_field.second.Call(Printer(os, prefix + '_' + field_name, type, comment, struct_names));
       }
       os << '\n';
       os << "CURRENT_STRUCT(" << output_type << ") {\n";
@@ -722,7 +741,8 @@ class SchemaToCurrentStructPrinter {
 
     std::string type;
     std::string comment;
-    schema.Call(Printer(os, top_level_struct_name, type, comment));
+    std::unordered_set<std::string> struct_names;
+    schema.Call(Printer(os, top_level_struct_name, type, comment, struct_names));
 
     os << '\n';
     if (!comment.empty()) {
-- 
2.43.0


From 6831aca9957676463aff7f9607ddb3c551e4fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 78/88] fix: karl: the snapshot of a service was that of the
 keepalive before its latest one

---
 karl/karl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karl/karl.h b/karl/karl.h
index c48e313..2f720dd 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -552,7 +552,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
             {
               std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
               latest_keepalive_index_plus_one_[parsed_status.codename] =
-                  keepalives_stream_->Publisher()->Publish(std::move(record)).index;
+                  keepalives_stream_->Publisher()->Publish(std::move(record)).index + 1;
             }
           }
 
-- 
2.43.0


From fff0cdcfb3ecca665da9522b5c955a5266c03759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 79/88] fix: karl: the index of the latest keepalive was read
 and kept without its mutex

---
 karl/karl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/karl/karl.h b/karl/karl.h
index 2f720dd..25f5e7b 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -733,14 +733,13 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
   void ServeSnapshot(Request r) {
     const auto codename = r.url_path_args[0];
 
-    uint64_t& index_placeholder = [&]() {
-      std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
-      return std::ref(latest_keepalive_index_plus_one_[codename]);
-    }();
-
     const auto& keepalives_data = keepalives_stream_->Data();
 
-    uint64_t index = index_placeholder;
+    uint64_t index = [&]() -> uint64_t {
+      std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
+      const auto cit = latest_keepalive_index_plus_one_.find(codename);
+      return cit != latest_keepalive_index_plus_one_.end() ? cit->second : 0u;
+    }();
     if (!index) {
       // If no latest keepalive index in cache, go through the whole log.
       for (const auto& e : keepalives_data->Iterate()) {
@@ -750,6 +749,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
       }
       if (index) {
         std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
+        uint64_t& index_placeholder = latest_keepalive_index_plus_one_[codename];
         index_placeholder = std::max(index_placeholder, index);
       }
     }
-- 
2.43.0


From cf08b71e4f52d7cf97417b259ace2e71767c2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 80/88] fix: karl: the services found active at startup were
 added without the mutex and without waking the thread which times them out

---
 karl/karl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karl/karl.h b/karl/karl.h
index 25f5e7b..9f0e1eb 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -330,11 +330,14 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
           const auto now = current::time::Now();
           // Pre-populate services marked as `Active` due to abrupt shutdown into the cache.
           // This will help to eventually mark non-active services as `DisconnectedByTimeout`.
+          std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
           for (const auto& claire : fields.claires) {
             if (claire.registered_state == ClaireRegisteredState::Active) {
               services_keepalive_time_cache_[claire.codename] = now;
             }
           }
+          state_update_thread_force_wakeup_ = true;
+          update_thread_condition_variable_.notify_one();
         })
         .Wait();
   }
-- 
2.43.0


From 6cc3f00cda8ef379877c5fc21be341c7ad1346ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 81/88] fix: karl: a service was timed out up to an interval
 late when another one kept sending keepalives

---
 karl/karl.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/karl/karl.h b/karl/karl.h
index 9f0e1eb..4ff78cd 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -382,7 +382,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
     while (!destructing_) {
       const auto now = current::time::Now();
       std::unordered_set<std::string> timeouted_codenames;
-      std::chrono::microseconds most_recent_keepalive_time(0);
+      std::chrono::microseconds earliest_keepalive_time(0);
       {
         std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
         for (auto it = services_keepalive_time_cache_.cbegin(); it != services_keepalive_time_cache_.cend();) {
@@ -390,7 +390,9 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
             timeouted_codenames.insert(it->first);
             services_keepalive_time_cache_.erase(it++);
           } else {
-            most_recent_keepalive_time = std::max(it->second, most_recent_keepalive_time);
+            if (earliest_keepalive_time.count() == 0 || it->second < earliest_keepalive_time) {
+              earliest_keepalive_time = it->second;
+            }
             ++it;
           }
         }
@@ -423,9 +425,9 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
       std::this_thread::sleep_for(std::chrono::milliseconds(50));
 #else
       std::unique_lock<std::mutex> lock(services_keepalive_cache_mutex_);
-      if (most_recent_keepalive_time.count() != 0) {
+      if (earliest_keepalive_time.count() != 0) {
         const auto wait_interval =
-            parameters_.service_timeout_interval - (current::time::Now() - most_recent_keepalive_time);
+            parameters_.service_timeout_interval - (current::time::Now() - earliest_keepalive_time);
         if (wait_interval.count() > 0) {
           update_thread_condition_variable_.wait_for(lock, wait_interval + std::chrono::microseconds(1), [this]() {
             return destructing_ || state_update_thread_force_wakeup_;
-- 
2.43.0


From 7fb650860a0efb07d687680214390e9cdbeaf783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 82/88] fix: claire: the dependencies, Karl's locator and the
 outcome of the last keepalive were accessed without a common mutex

---
 karl/claire.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index 60e40a0..b0a8f05 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -148,27 +148,27 @@ class GenericClaire final : private DummyClaireNotifiable {
   }
 
   void AddDependency(const std::string& service) {
-    std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> lock(karl_and_dependencies_mutex_);
     dependencies_.insert(service);
   }
 
   void AddDependency(const ClaireServiceKey& service) {
-    std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> lock(karl_and_dependencies_mutex_);
     dependencies_.insert(service);
   }
 
   void SetDependencies(const std::vector<std::string>& services) {
-    std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> lock(karl_and_dependencies_mutex_);
     dependencies_ = ParseDependencies(services);
   }
 
   void RemoveDependency(const std::string& service) {
-    std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> lock(karl_and_dependencies_mutex_);
     dependencies_.erase(service);
   }
 
   void RemoveDependency(const ClaireServiceKey& service) {
-    std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> lock(karl_and_dependencies_mutex_);
     dependencies_.erase(service);
   }
 
@@ -237,7 +237,10 @@ class GenericClaire final : private DummyClaireNotifiable {
                       ForceSendKeepaliveWaitRequest wait_for_keepalive = ForceSendKeepaliveWaitRequest::DoNotWait) {
     {
       std::lock_guard<std::mutex> lock(keepalive_mutex_);
-      karl_ = new_karl_locator;
+      {
+        std::lock_guard<std::mutex> inner_lock(karl_and_dependencies_mutex_);
+        karl_ = new_karl_locator;
+      }
       karl_keepalive_route_ = KarlKeepaliveRoute(karl_, codename_, port_);
       notifiable_ref_.OnKarlLocatorChanged(new_karl_locator);
     }
@@ -280,8 +283,12 @@ class GenericClaire final : private DummyClaireNotifiable {
     status.start_time_epoch_microseconds = us_start_;
 
     status.local_port = port_;
-    status.dependencies.assign(dependencies_.begin(), dependencies_.end());
-    status.reporting_to = karl_.address_port_route;
+    {
+      // Not `keepalive_mutex_`, as it is being held while Karl is calling back to confirm the registration.
+      std::lock_guard<std::mutex> lock(karl_and_dependencies_mutex_);
+      status.dependencies.assign(dependencies_.begin(), dependencies_.end());
+      status.reporting_to = karl_.address_port_route;
+    }
 
     status.now = now;
 
@@ -389,6 +396,7 @@ class GenericClaire final : private DummyClaireNotifiable {
         }
       }
     } catch (const current::Exception& e) {
+      std::lock_guard<std::mutex> lock(status_mutex_);
       last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::CouldNotConnect;
       error_message = e.DetailedDescription();
     }
@@ -531,6 +539,7 @@ class GenericClaire final : private DummyClaireNotifiable {
 
   const std::chrono::microseconds us_start_;
 
+  mutable std::mutex karl_and_dependencies_mutex_;
   mutable std::mutex status_mutex_;
   status_generator_t status_generator_;
   ClaireStatus boilerplate_status_;
-- 
2.43.0


From 1bbebb75f290ffea7cdf30a17c2e04ae58d7b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 83/88] fix: claire: the HTTP handler was registered before,
 and unregistered after, the members it uses existed

---
 karl/claire.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index b0a8f05..6cce85d 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -111,11 +111,11 @@ class GenericClaire final : private DummyClaireNotifiable {
         karl_keepalive_route_(KarlKeepaliveRoute(karl_, codename_, port_)),
         notifiable_ref_(notifiable),
         us_start_(current::time::Now()),
-        http_scope_(HTTP(current::net::BarePort(port))
-                        .Register("/.current", [this](Request r) { ServeCurrent(std::move(r)); })),
         destructing_(false),
         keepalive_thread_force_wakeup_(false),
-        keepalive_thread_running_(false) {}
+        keepalive_thread_running_(false),
+        http_scope_(HTTP(current::net::BarePort(port))
+                        .Register("/.current", [this](Request r) { ServeCurrent(std::move(r)); })) {}
 
   GenericClaire(Locator karl,
                 const std::string& service,
@@ -547,8 +547,6 @@ class GenericClaire final : private DummyClaireNotifiable {
   std::chrono::microseconds last_successful_keepalive_timestamp_ = std::chrono::microseconds(0);
   std::chrono::microseconds last_successful_keepalive_ping_ = std::chrono::microseconds(0);
 
-  const HTTPRoutesScope http_scope_;
-
   std::atomic_bool destructing_;
 
   std::atomic_bool keepalive_thread_force_wakeup_;
@@ -559,6 +557,9 @@ class GenericClaire final : private DummyClaireNotifiable {
   std::thread keepalive_thread_;
 
   bool keepalive_sent_ = false;  // For `ForceSendKeepalive(wait == ForceSendKeepaliveWaitRequest::Wait)`. -- D.K.
+
+  // Must be the last member, as the handler uses the members above.
+  const HTTPRoutesScope http_scope_;
 };
 
 using Claire = GenericClaire<Variant<default_user_status::status>>;
-- 
2.43.0


From 0dd8ecafdcfa66685e994259490fae93c4f8f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 84/88] fix: claire: Register() ended the process if the
 keepalives had already been started

---
 karl/claire.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karl/claire.h b/karl/claire.h
index 6cce85d..a0a51c7 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -191,8 +191,14 @@ class GenericClaire final : private DummyClaireNotifiable {
         SendKeepaliveToKarl(lock, karl_keepalive_route_ + "&confirm");
       }
 
-      StartKeepaliveThread();
       in_beacon_mode_ = true;
+      lock.unlock();
+
+      std::lock_guard<std::mutex> running_lock(keepalive_thread_running_status_mutex_);
+      // Could have been started by `ForceSendKeepalive()` or `SetKarlLocator()` already.
+      if (!keepalive_thread_running_) {
+        StartKeepaliveThread<current::locks::MutexLockStatus::AlreadyLocked>();
+      }
     }
   }
 
-- 
2.43.0


From aa2186b8876e901ef606c657ebccd27fd1eefa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:29 +0000
Subject: [PATCH 85/88] fix: karl: deregistering a codename never heard of
 persisted uninitialized memory

---
 karl/schema_claire.h | 2 +-
 karl/schema_karl.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/karl/schema_claire.h b/karl/schema_claire.h
index 9d17ea3..6265ef0 100644
--- a/karl/schema_claire.h
+++ b/karl/schema_claire.h
@@ -50,7 +50,7 @@ CURRENT_STRUCT(ClaireServiceKey) {
   CURRENT_FIELD(ip, std::string);
   CURRENT_FIELD_DESCRIPTION(ip, "The IP address of the server on which the service is running.");
 
-  CURRENT_FIELD(port, uint16_t);
+  CURRENT_FIELD(port, uint16_t, 0u);
   CURRENT_FIELD_DESCRIPTION(port, "The local port on which the service is running.");
 
   // TODO(dkorolev) + TODO(mzhurovich): Should or should not end with '/'?
diff --git a/karl/schema_karl.h b/karl/schema_karl.h
index 77c0d19..5bb4b01 100644
--- a/karl/schema_karl.h
+++ b/karl/schema_karl.h
@@ -149,7 +149,7 @@ CURRENT_STRUCT(ClaireInfo) {
   CURRENT_FIELD(location, ClaireServiceKey);
   CURRENT_FIELD_DESCRIPTION(location, "The location of the service.");
 
-  CURRENT_FIELD(reported_timestamp, std::chrono::microseconds);
+  CURRENT_FIELD(reported_timestamp, std::chrono::microseconds, std::chrono::microseconds(0));
   CURRENT_FIELD_DESCRIPTION(reported_timestamp,
                             "The time when persisted information about this service has been last updated.");
 
-- 
2.43.0


From 581cd6ea1ece5a1bbfb8ad1c3af2fad2bc40b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 86/88] fix: stream: a subscriber that had got no entry yet was
 not told of updated heads

---
 stream/stream.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index f12776d..9f0b0e0 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -423,10 +423,17 @@ class Stream final {
           std::unique_lock<std::mutex> lock(impl_->publishing_mutex);
           current::WaitableTerminateSignalBulkNotifier::Scope scope(impl_->notifier, terminate_signal_);
           terminate_signal_.WaitUntil(lock, [this, &index, &begin_idx, &head]() {
-            return terminate_signal_ ||
-                   impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index ||
-                   (index > begin_idx &&
-                    impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head);
+            if (terminate_signal_) {
+              return true;
+            }
+            const auto last =
+                impl_->persister
+                    .template HeadAndLastPublishedIndexAndTimestamp<current::locks::MutexLockStatus::AlreadyLocked>();
+            const uint64_t size_now = Exists(last.idxts) ? Value(last.idxts).index + 1 : 0;
+            // The timestamp of the entry right before the first one to pass is not an update of the head by itself.
+            return size_now > index ||
+                   (size_now >= begin_idx && last.head > head &&
+                    (!Exists(last.idxts) || last.head > Value(last.idxts).us));
           });
         }
       }
-- 
2.43.0


From e178e3dc63d3e4b4c20a76aebd66264971d4947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:27 +0000
Subject: [PATCH 87/88] fix: json: a variant that is absent or null in the
 input kept what the object being parsed into had in it

---
 typesystem/serialization/json/variant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typesystem/serialization/json/variant.h b/typesystem/serialization/json/variant.h
index f977bf1..7f608db 100644
--- a/typesystem/serialization/json/variant.h
+++ b/typesystem/serialization/json/variant.h
@@ -424,6 +424,9 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<IS_CUR
     } else if (!json_parser || json_parser.Current().IsNull()) {
       if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value) {
         CURRENT_THROW(JSONUninitializedVariantObjectException());
+      } else {
+        // The object being parsed into may well have had this variant initialized.
+        value = nullptr;
       }
     } else {
       json::JSONVariantPerStyle<JSON_FORMAT::variant_style, JSON_FORMAT, T>::Instance().DoLoadVariant(json_parser,
-- 
2.43.0


From 446be46d9fddc1b7e0599b3574793e485bee4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:52 +0000
Subject: [PATCH 88/88] fix: json: numbers that start as 18446744073709551615
 and go on with more digits failed an assertion of the parser

---
 3rdparty/rapidjson/internal/strtod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/rapidjson/internal/strtod.h b/3rdparty/rapidjson/internal/strtod.h
index dfca22b..70bb098 100644
--- a/3rdparty/rapidjson/internal/strtod.h
+++ b/3rdparty/rapidjson/internal/strtod.h
@@ -133,7 +133,7 @@ inline bool StrtodDiyFp(const char* decimals, int dLen, int dExp, double* result
     int i = 0;   // 2^64 - 1 = 18446744073709551615, 1844674407370955161 = 0x1999999999999999    
     for (; i < dLen; i++) {
         if (significand  >  RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) ||
-            (significand == RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) && decimals[i] > '5'))
+            (significand == RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) && decimals[i] >= '5'))
             break;
         significand = significand * 10u + static_cast<unsigned>(decimals[i] - '0');
     }
-- 
2.43.0

