From 3f94d0ef076cf615065e41b5d6c87bae7f271ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 01/11] fix: Entity::Unset of several components through an
 entity list reference

Removing the first component resets the list element that *this may refer to,
so the remaining components were removed from entity index 0 instead.
---
 inc/Tecs_entity.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..2d77bde 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,11 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // It is possible for *this to be a reference to a component's writeValidEntities list
+            // Copy the index before removing components so we can complete the removal.
+            size_t copy = index;
+
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0


From 6dd69553fde1e78d78f1bfd720ae45694cd7d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 02/11] fix: AddRemove permission was lost when a Lock type is
 used as a permission

has_permissions<>() wraps its argument in another Lock, and AddRemove was only
looked up one level deep: DynamicLock<WriteAll>::TryLock<AddRemove>() handed out
an AddRemove lock, and Lock<AddRemove>::has_permissions<AddRemove>() was false.
---
 inc/Tecs_permissions.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_permissions.hh b/inc/Tecs_permissions.hh
index decc83d..93f2133 100644
--- a/inc/Tecs_permissions.hh
+++ b/inc/Tecs_permissions.hh
@@ -131,13 +131,13 @@ namespace Tecs {
     struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};
 
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     // clang-format on
 
     // Check SubLock <= Lock for component type T
-- 
2.43.0


From e592db8b8d354d99cbd7da067594748a6e39e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 03/11] fix: EntityView::rend() skipped the first entity

An empty view was also never at its reverse end.
---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..2ce6cfa 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From 59458a088bb2d8d9887512c82d58bb44f29cdd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 04/11] fix: EntityView::subview(offset) threw for any offset
 but 0

offset + the default count overflowed, so the subview ended before it started.
---
 inc/Tecs_entity_view.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 2ce6cfa..b9b66a6 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -162,7 +162,9 @@ namespace Tecs {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+            size_type start = start_index + offset;
+            size_type available = size() - std::min(offset, size());
+            return EntityView(*storage, start, count < available ? start + count : end_index);
         }
 
     private:
-- 
2.43.0


From 4eec4610c4cee4ea4b700b96aba4bc878f485471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 05/11] fix: EntityView::operator[] indexed the underlying list
 instead of the view

subview[0] threw (or, unchecked, read outside of the subview).
---
 inc/Tecs_entity_view.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index b9b66a6..fc16bf7 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -143,11 +143,11 @@ namespace Tecs {
 
         inline reference operator[](size_type index) const {
 #ifndef TECS_UNCHECKED_MODE
-            if (index < start_index || index >= end_index) {
+            if (index >= size()) {
                 throw std::runtime_error("EntityView index out of range: " + std::to_string(index));
             }
 #endif
-            return (*storage)[index];
+            return (*storage)[start_index + index];
         }
 
         inline size_type size() const noexcept {
-- 
2.43.0


From e51778a92f191bbc194e28f85c763578bff68d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 06/11] fix: Lock::Get<const T> added a missing global
 component without committing its value

The component then existed with empty storage, and the next read was out of
bounds. A const Get no longer adds the component, same as Entity::Get<const T>.
---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..d2d31f6 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From fa9b29d9e0cbdb5ce046fa85ce4ef4af0e5a3dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 07/11] fix: TECS_HEADER_ONLY did not compile

NewEntity() and GetInstanceId() use the ECS instance id, which only existed in
the library build.
---
 inc/Tecs.hh             | 4 ----
 inc/Tecs_transaction.hh | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs.hh b/inc/Tecs.hh
index 1a027c7..6738a2a 100644
--- a/inc/Tecs.hh
+++ b/inc/Tecs.hh
@@ -31,9 +31,7 @@ namespace Tecs {
     class ECS {
     public:
         ECS() {
-#ifndef TECS_HEADER_ONLY
             ecsId = ++nextEcsId;
-#endif
         }
 
         /**
@@ -182,9 +180,7 @@ namespace Tecs {
         TraceInfo transactionTrace;
 #endif
 
-#ifndef TECS_HEADER_ONLY
         size_t ecsId;
-#endif
 
         template<typename, typename...>
         friend class Lock;
diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..ad0eb68 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -29,6 +29,8 @@ namespace Tecs {
     extern thread_local size_t activeTransactionsCount;
     extern std::atomic_size_t nextEcsId;
     extern std::atomic_size_t nextTransactionId;
+#else
+    inline std::atomic_size_t nextEcsId(0);
 #endif
 
     /**
-- 
2.43.0


From 8850b9619aa6948bb4b11c7807eeda96fe55b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 08/11] verif: off-by-default observation points in the locks
 and the commit sequence

TECS_VERIF_POINT() expands to nothing unless TECS_VERIF_HOOKS is defined.
---
 inc/Tecs_storage.hh     | 20 ++++++++++++++++++++
 inc/Tecs_transaction.hh | 12 ++++++++++++
 inc/Tecs_verif.hh       |  9 +++++++++
 3 files changed, 41 insertions(+)
 create mode 100644 inc/Tecs_verif.hh

diff --git a/inc/Tecs_storage.hh b/inc/Tecs_storage.hh
index 98fbc80..99c4cbd 100644
--- a/inc/Tecs_storage.hh
+++ b/inc/Tecs_storage.hh
@@ -2,6 +2,7 @@
 
 #include "Tecs_entity.hh"
 #include "Tecs_observer.hh"
+#include "Tecs_verif.hh"
 #ifdef TECS_ENABLE_PERFORMANCE_TRACING
     #include "Tecs_tracing.hh"
 #endif
@@ -45,8 +46,10 @@ namespace Tecs {
 
             int retry = 0;
             while (true) {
+                TECS_VERIF_POINT("ReadLock.load");
                 uint32_t currentReaders = readers;
                 uint32_t currentWriter = writer;
+                TECS_VERIF_POINT("ReadLock.cas");
                 if (currentReaders != READER_LOCKED && currentWriter != WRITER_COMMIT) {
                     uint32_t next = currentReaders + 1;
                     if (readers.compare_exchange_weak(currentReaders,
@@ -84,6 +87,7 @@ namespace Tecs {
 
                 if (retry++ > TECS_SPINLOCK_RETRY_YIELD) {
                     retry = 0;
+                    TECS_VERIF_POINT("Lock.wait");
 #if __cpp_lib_atomic_wait
                     if (currentWriter == WRITER_COMMIT) {
                         writer.wait(currentWriter);
@@ -105,11 +109,14 @@ namespace Tecs {
             traceInfo.Trace(TraceEvent::Type::ReadUnlock);
 #endif
 
+            TECS_VERIF_POINT("ReadUnlock.load");
             uint32_t current = readers;
             if (current == READER_FREE || current == READER_LOCKED) {
                 throw std::runtime_error("ReadUnlock called outside of ReadLock");
             }
+            TECS_VERIF_POINT("ReadUnlock.sub");
             readers.fetch_sub(1, std::memory_order_release);
+            TECS_VERIF_POINT("ReadUnlock.notify");
 #if __cpp_lib_atomic_wait
             readers.notify_all();
 #endif
@@ -136,7 +143,9 @@ namespace Tecs {
 
             int retry = 0;
             while (true) {
+                TECS_VERIF_POINT("WriteLock.load");
                 uint32_t current = writer;
+                TECS_VERIF_POINT("WriteLock.cas");
                 if (current == WRITER_FREE) {
                     if (writer.compare_exchange_weak(current,
                             WRITER_LOCKED,
@@ -173,6 +182,7 @@ namespace Tecs {
 
                 if (retry++ > TECS_SPINLOCK_RETRY_YIELD) {
                     retry = 0;
+                    TECS_VERIF_POINT("Lock.wait");
 #if __cpp_lib_atomic_wait
                     if (current != WRITER_FREE) writer.wait(current);
 #else
@@ -199,6 +209,7 @@ namespace Tecs {
             bool runAfterLock = tracyRead.BeforeLock();
 #endif
 
+            TECS_VERIF_POINT("CommitLock.begin");
             uint32_t current = writer;
             if (current != WRITER_LOCKED) {
                 throw std::runtime_error("CommitLock called outside of WriteLock");
@@ -208,7 +219,9 @@ namespace Tecs {
 
             int retry = 0;
             while (true) {
+                TECS_VERIF_POINT("CommitLock.load");
                 current = readers;
+                TECS_VERIF_POINT("CommitLock.cas");
                 if (current == READER_FREE) {
                     if (readers.compare_exchange_weak(current,
                             READER_LOCKED,
@@ -234,6 +247,7 @@ namespace Tecs {
 
                 if (retry++ > TECS_SPINLOCK_RETRY_YIELD) {
                     retry = 0;
+                    TECS_VERIF_POINT("Lock.wait");
 #if __cpp_lib_atomic_wait
                     if (current != READER_FREE) readers.wait(current);
 #else
@@ -253,6 +267,7 @@ namespace Tecs {
 #endif
 
             // Unlock read copies immediately after commit completion
+            TECS_VERIF_POINT("CommitUnlock.readers");
             uint32_t current = readers;
             if (current != READER_LOCKED) {
                 throw std::runtime_error("CommitUnlock called outside of CommitLock");
@@ -263,12 +278,14 @@ namespace Tecs {
             readers.notify_all();
 #endif
 
+            TECS_VERIF_POINT("CommitUnlock.writer");
             current = writer;
             if (current != WRITER_COMMIT) {
                 throw std::runtime_error("CommitUnlock called outside of CommitLock");
             } else if (!writer.compare_exchange_strong(current, WRITER_LOCKED, std::memory_order_release)) {
                 throw std::runtime_error("CommitUnlock writer changed unexpectedly");
             }
+            TECS_VERIF_POINT("Writer.notify");
 #if __cpp_lib_atomic_wait
             writer.notify_all();
 #endif
@@ -283,6 +300,7 @@ namespace Tecs {
 #endif
 
             // Unlock read and write copies
+            TECS_VERIF_POINT("WriteUnlock.readers");
             uint32_t current = readers;
             if (current == READER_LOCKED) {
                 if (!readers.compare_exchange_strong(current, READER_FREE, std::memory_order_release)) {
@@ -293,12 +311,14 @@ namespace Tecs {
             readers.notify_all();
 #endif
 
+            TECS_VERIF_POINT("WriteUnlock.writer");
             current = writer;
             if (current != WRITER_LOCKED && current != WRITER_COMMIT) {
                 throw std::runtime_error("WriteUnlock called outside of WriteLock");
             } else if (!writer.compare_exchange_strong(current, WRITER_FREE, std::memory_order_release)) {
                 throw std::runtime_error("WriteUnlock writer changed unexpectedly");
             }
+            TECS_VERIF_POINT("Writer.notify");
 #if __cpp_lib_atomic_wait
             writer.notify_all();
 #endif
diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index ad0eb68..bab7e02 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -3,6 +3,7 @@
 #include "Tecs_entity.hh"
 #include "Tecs_observer.hh"
 #include "Tecs_permissions.hh"
+#include "Tecs_verif.hh"
 #ifdef TECS_ENABLE_PERFORMANCE_TRACING
     #include "Tecs_tracing.hh"
 #endif
@@ -158,6 +159,7 @@ namespace Tecs {
             // This should only block while no locks are held to prevent deadlocks.
             bool rollback = false;
             for (size_t i = 0; !acquired.all(); i = (i + 1) % acquired.size()) {
+                TECS_VERIF_POINT("Transaction.acquire");
                 if (rollback) {
                     if (acquired[i]) {
                         unlockFuncs[i]();
@@ -176,6 +178,7 @@ namespace Tecs {
                 }
             }
 
+            TECS_VERIF_POINT("Transaction.acquired");
             if (is_add_remove_allowed<LockType>()) {
                 // Init observer event queues
                 std::apply(
@@ -197,6 +200,7 @@ namespace Tecs {
 #ifdef TECS_ENABLE_TRACY
             ZoneNamedN(tracyTxScope, "EndTransaction", true);
 #endif
+            TECS_VERIF_POINT("Transaction.end");
             if constexpr (is_add_remove_allowed<LockType>()) {
                 if (this->writeAccessedFlags[0]) {
                     PreCommitAddRemoveMetadata();
@@ -204,6 +208,7 @@ namespace Tecs {
                 }
             }
 
+            TECS_VERIF_POINT("Transaction.precommitted");
             ( // For each AllComponentTypes, unlock any Noop Writes or Read locks early
                 [&] {
                     if constexpr (is_write_allowed<AllComponentTypes, LockType>()) {
@@ -216,6 +221,7 @@ namespace Tecs {
                 }(),
                 ...);
 
+            TECS_VERIF_POINT("Transaction.early_unlocked");
             { // Acquire commit locks for all write-accessed components
 #if defined(TECS_ENABLE_TRACY) && defined(TECS_TRACY_INCLUDE_DETAILED_COMMIT)
                 ZoneNamedN(tracyCommitScope1, "CommitLock", true);
@@ -233,6 +239,7 @@ namespace Tecs {
                     }(),
                     ...);
             }
+            TECS_VERIF_POINT("Transaction.commit_locked");
             { // Swap read and write storage, and release commit lock for all held locks
 #if defined(TECS_ENABLE_TRACY) && defined(TECS_TRACY_INCLUDE_DETAILED_COMMIT)
                 ZoneNamedN(tracyCommitScope2, "Commit", true);
@@ -246,6 +253,7 @@ namespace Tecs {
                             },
                             this->instance.eventLists);
 
+                        TECS_VERIF_POINT("Transaction.swap_metadata");
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
@@ -259,6 +267,7 @@ namespace Tecs {
                             if (!this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)) return;
                             auto &storage = this->instance.template Storage<AllComponentTypes>();
 
+                            TECS_VERIF_POINT("Transaction.swap_component");
                             storage.readComponents.swap(storage.writeComponents);
                             if constexpr (is_add_remove_allowed<LockType>()) {
                                 if (this->writeAccessedFlags[0]) {
@@ -271,6 +280,7 @@ namespace Tecs {
                     ...);
             }
 
+            TECS_VERIF_POINT("Transaction.swapped");
             ( // For each AllComponentTypes, reset the write storage to match read.
                 [&] {
                     if constexpr (is_write_allowed<AllComponentTypes, LockType>()) {
@@ -300,6 +310,7 @@ namespace Tecs {
                                 }
                             }
                         }
+                        TECS_VERIF_POINT("Transaction.reset_component");
                         storage.WriteUnlock();
                     }
                 }(),
@@ -310,6 +321,7 @@ namespace Tecs {
                     this->instance.metadata.writeValidEntities = this->instance.metadata.readValidEntities;
                 }
             }
+            TECS_VERIF_POINT("Transaction.reset_metadata");
             if constexpr (is_add_remove_allowed<LockType>()) {
                 this->instance.metadata.WriteUnlock();
             } else {
diff --git a/inc/Tecs_verif.hh b/inc/Tecs_verif.hh
new file mode 100644
index 0000000..279b864
--- /dev/null
+++ b/inc/Tecs_verif.hh
@@ -0,0 +1,9 @@
+#pragma once
+
+// Observation points for runtime verification. These compile to nothing unless TECS_VERIF_HOOKS is defined.
+#ifdef TECS_VERIF_HOOKS
+extern "C" void tecs_verif_point(const char *where);
+    #define TECS_VERIF_POINT(where) ::tecs_verif_point(where)
+#else
+    #define TECS_VERIF_POINT(where)
+#endif
-- 
2.43.0


From c458e4e40ec63e7b7ae825c457f1fa165b182e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 09/11] fix: keep the metadata commit lock until all component
 lists are swapped

---
 inc/Tecs_transaction.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index bab7e02..985cc63 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -257,7 +257,6 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
-                        this->instance.metadata.CommitUnlock();
                     }
                 }
                 ( // For each AllComponentTypes
@@ -278,6 +277,11 @@ namespace Tecs {
                         }
                     }(),
                     ...);
+                if constexpr (is_add_remove_allowed<LockType>()) {
+                    // The lists of valid entities of each component are readable by any lock, so the metadata must
+                    // stay locked until all of them have been swapped.
+                    if (this->writeAccessedFlags[0]) this->instance.metadata.CommitUnlock();
+                }
             }
 
             TECS_VERIF_POINT("Transaction.swapped");
-- 
2.43.0


From 0abcd35f4b73055b6787a257b94e5dc280d75ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 10/11] fix: EntityView::subview offset overflow gave access
 outside the view

---
 inc/Tecs_entity_view.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index fc16bf7..09925d2 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -161,6 +161,9 @@ namespace Tecs {
         inline EntityView subview(size_type offset, size_type count = std::numeric_limits<size_type>::max()) const {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
+            if (offset > size()) {
+                throw std::runtime_error("EntityView::subview offset out of range: " + std::to_string(offset));
+            }
 #endif
             size_type start = start_index + offset;
             size_type available = size() - std::min(offset, size());
-- 
2.43.0


From a167e577823c35b4dede784eed8db823f408104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 11/11] fix: DynamicLock::TryLock did not compile with 64 or
 more components before C++23

---
 inc/Tecs_lock.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index d2d31f6..ba9ba9a 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -468,8 +468,8 @@ namespace Tecs {
             if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicLockType>()) {
                 return DynamicLockType(this->instance, this->base, this->permissions);
             } else {
-                static constexpr auto requestedRead = generateReadBitset<DynamicLockType>();
-                static constexpr auto requestedWrite = generateWriteBitset<DynamicLockType>();
+                const auto requestedRead = generateReadBitset<DynamicLockType>();
+                const auto requestedWrite = generateWriteBitset<DynamicLockType>();
                 if ((requestedRead & readPermissions) == requestedRead &&
                     (requestedWrite & this->permissions) == requestedWrite) {
                     return DynamicLockType(this->instance, this->base, this->permissions);
-- 
2.43.0

