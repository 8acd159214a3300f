From 8e0e0c29d1417daca1842bab30bc3d011f96a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 01/50] fix: parallel_for must not run any iteration when start
 is SIZE_MAX and end is 0

---
 include/parlay/parallel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index 5f32807..b6d53d1 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -192,7 +192,7 @@ template <typename F>
 inline void parallel_for(size_t start, size_t end, F&& f, long granularity, bool conservative) {
   static_assert(std::is_invocable_v<F&, size_t>);
 
-  if (start + 1 == end) {
+  if (start < end && end - start == 1) {
     f(start);
   }
   else if ((end - start) <= static_cast<size_t>(granularity)) {
-- 
2.43.0


From 46c6e18038dd70f2e2d0b66cd25eb58d27175dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 02/50] fix: blocked_for must not lose iterations when rounding
 up to a huge block size overflows

---
 include/parlay/parallel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index b6d53d1..dff1900 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -66,10 +66,11 @@ inline void blocked_for(size_t start, size_t end, size_t block_size, F&& f, bool
   static_assert(std::is_invocable_v<F&, size_t, size_t, size_t>);
   assert(block_size > 0);
   if (start < end) {
-    size_t n_blocks = (end - start + block_size - 1) / block_size;
+    // Both of these avoid overflow when block_size is close to the maximum size_t
+    size_t n_blocks = (end - start - 1) / block_size + 1;
     parallel_for(0, n_blocks, [&](size_t i) {
       size_t s = start + i * block_size;
-      size_t e = (std::min)(s + block_size, end);
+      size_t e = s + (std::min)(block_size, end - s);
       f(i, s, e);
     }, 0, conservative);
   }
-- 
2.43.0


From f126b9c5209b27c55b3ff61abd0595118028dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 03/50] fix: atomic_notify could miss a thread that was just
 about to wait (lost wakeup)

---
 include/parlay/internal/atomic_wait.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/parlay/internal/atomic_wait.h b/include/parlay/internal/atomic_wait.h
index 35d8a0a..73029e1 100644
--- a/include/parlay/internal/atomic_wait.h
+++ b/include/parlay/internal/atomic_wait.h
@@ -260,7 +260,7 @@ The strategy is chosen this way, by platform:
             auto * const c = __contention(ptr);
             __atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED);
             __atomic_thread_fence(__ATOMIC_SEQ_CST);
-            if (0 != __atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED))
+            if (0 != __atomic_load_n(&c->waiters, __ATOMIC_RELAXED))
                 __do_direct_wake(&c->version, true);
     #endif
         }
@@ -272,17 +272,21 @@ The strategy is chosen this way, by platform:
         void __cxx_atomic_try_wait_slow(_Tp const* ptr, _Tp const val, int order) {
     #if defined(__TABLE)
             auto * const c = __contention(ptr);
-            __atomic_store_n(&c->waiters, 1, __ATOMIC_RELAXED);
+            // waiters must be a count, not a flag that the notifier resets: otherwise, a
+            // notifier could clear the flag of a thread that is only just about to wait,
+            // and every later notification would then skip waking up that thread
+            __atomic_fetch_add(&c->waiters, 1, __ATOMIC_RELAXED);
             __atomic_thread_fence(__ATOMIC_SEQ_CST);
             auto const version = __atomic_load_n(&c->version, __ATOMIC_RELAXED);
-            if (__builtin_expect(val != __atomic_load_n(ptr, order), 1))
-                return;
+            if (__builtin_expect(val == __atomic_load_n(ptr, order), 1)) {
         #ifdef __FUTEX_TIMED
-            constexpr timespec timeout = { 2, 0 }; // Hedge on rare 'int version' aliasing.
-            __do_direct_wait(&c->version, version, &timeout);
+                constexpr timespec timeout = { 2, 0 }; // Hedge on rare 'int version' aliasing.
+                __do_direct_wait(&c->version, version, &timeout);
         #else
-            __do_direct_wait(&c->version, version, nullptr);
+                __do_direct_wait(&c->version, version, nullptr);
         #endif
+            }
+            __atomic_fetch_sub(&c->waiters, 1, __ATOMIC_RELAXED);
     #else
         __cxx_atomic_try_wait_slow_fallback(ptr, val, order);
     #endif // __TABLE
-- 
2.43.0


From d8ea79a735bf13b40ad1be4b4731169efc7bd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 04/50] fix: data race between acquire and relinquish of a
 thread id (next was read without synchronization)

---
 include/parlay/internal/thread_id_pool.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/thread_id_pool.h b/include/parlay/internal/thread_id_pool.h
index 5d86196..370165e 100644
--- a/include/parlay/internal/thread_id_pool.h
+++ b/include/parlay/internal/thread_id_pool.h
@@ -106,9 +106,11 @@ class ThreadIdPool : public std::enable_shared_from_this<ThreadIdPool> {
       static std::mutex m_;
       std::lock_guard<std::mutex> g_{m_};
 
-      ThreadId* current = available_ids.load(std::memory_order_relaxed);
+      // These must be acquire (even when the compare_exchange fails) since current->next was
+      // written by another thread, which published it with the release store in relinquish
+      ThreadId* current = available_ids.load(std::memory_order_acquire);
       while (current && !available_ids.compare_exchange_weak(current, current->next,
-               std::memory_order_acquire, std::memory_order_relaxed)) {}
+               std::memory_order_acquire, std::memory_order_acquire)) {}
       if (current) { return current; }
     }
     return new ThreadId(num_thread_ids.fetch_add(1));
-- 
2.43.0


From eb2243c0abb7740a802d1c34bee0d913f1f85334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 05/50] fix: data race on the next pointer of hazptr_stack
 nodes between pop and retire

---
 .../internal/concurrency/hazptr_stack.h       | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/parlay/internal/concurrency/hazptr_stack.h b/include/parlay/internal/concurrency/hazptr_stack.h
index 3799748..64dcf56 100644
--- a/include/parlay/internal/concurrency/hazptr_stack.h
+++ b/include/parlay/internal/concurrency/hazptr_stack.h
@@ -25,17 +25,20 @@ class hazptr_stack {
 
   struct Node {
     T t;
-    Node* next;
+    // Atomic because a concurrent pop might read the next pointer of a node that was just
+    // retired by another thread, which links it into its retired list. The value that the
+    // pop reads is then never used, but it would still be a data race.
+    std::atomic<Node*> next;
     size_t length;
 
     // Allow the intrusive garbage collector to use the node's own next pointer
     // instead of having to allocate its own memory to store the retired nodes
     friend Node* intrusive_get_next(Node* node) {
-      return node->next;
+      return node->next.load(std::memory_order_relaxed);
     }
 
     friend void intrusive_set_next(Node* node, Node* next_) {
-      node->next = next_;
+      node->next.store(next_, std::memory_order_relaxed);
     }
 
     explicit Node(T t_) noexcept(std::is_nothrow_move_constructible_v<T>)
@@ -57,11 +60,12 @@ class hazptr_stack {
   // This operation is safe to perform concurrently with other operations
   void push(T t) {
     auto p = new Node(std::move(t));
+    Node* h;
     do {
-      auto h = hazptr_instance().acquire(head);
-      p->next = h;
+      h = hazptr_instance().acquire(head);
+      p->next.store(h, std::memory_order_relaxed);
       p->length = h ? h->length + 1 : 1;
-    } while (!head.compare_exchange_weak(p->next, p));
+    } while (!head.compare_exchange_weak(h, p));
     hazptr_instance().release();
   }
 
@@ -74,7 +78,7 @@ class hazptr_stack {
     do {
       p = hazptr_instance().acquire(head);
       if (p == nullptr) return {};
-    } while (!head.compare_exchange_weak(p, p->next));
+    } while (!head.compare_exchange_weak(p, p->next.load(std::memory_order_relaxed)));
     auto val = std::make_optional(std::move(p->t));
     hazptr_instance().retire(p);
     hazptr_instance().release();
@@ -102,7 +106,7 @@ class hazptr_stack {
     Node* prev = nullptr;
     while (p) {
       prev = p;
-      p = p->next;
+      p = p->next.load(std::memory_order_relaxed);
       delete prev;
     }
   }
-- 
2.43.0


From 22f99e7915f5148396ddb707359e9472e6310072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 06/50] fix: block_allocator with lists of one block never
 returned blocks to the global pool

---
 include/parlay/internal/block_allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/block_allocator.h b/include/parlay/internal/block_allocator.h
index eedbb57..a3d8683 100644
--- a/include/parlay/internal/block_allocator.h
+++ b/include/parlay/internal/block_allocator.h
@@ -184,7 +184,9 @@ struct block_allocator {
 
     if (my_local_list->sz == list_length+1) {
       my_local_list->mid = my_local_list->head;
-    } else if (my_local_list->sz == 2*list_length) {
+    }
+    // Not an else, since these are the same size when list_length is one
+    if (my_local_list->sz == 2*list_length) {
       global_stack.push(my_local_list->mid->next);
       my_local_list->mid->next = nullptr;
       my_local_list->sz = list_length;
-- 
2.43.0


From 25aa232c5d82ec2635ad2fdea7cb2f1245f60b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 07/50] fix: pool_allocator must add and subtract the same size
 for a large block

---
 include/parlay/internal/pool_allocator.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 2b8c2ac..989adae 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -58,16 +58,28 @@ struct pool_allocator {
   std::unique_ptr<internal::hazptr_stack<void*>[]> large_buckets;
   unique_array<block_allocator> small_allocators;
 
+  // The size that a large block of n bytes counts for in large_allocated and large_used:
+  // the size of its pool, or, if it is larger than the maximum pool size, n rounded up to a
+  // power of two, since p_free only knows the size of a block rounded up to a power of two.
+  size_t accounted_size(size_t n) const {
+    if (n > max_size) return size_t{1} << log2_up(n);
+    size_t bucket = num_small;
+    while (n > sizes[bucket]) bucket++;
+    return sizes[bucket];
+  }
+
   void* allocate_large(size_t n) {
 
     size_t bucket = num_small;
     size_t alloc_size;
-    large_used += n;
 
     if (n <= max_size) {
       while (n > sizes[bucket]) bucket++;
       std::optional<void*> r = large_buckets[bucket-num_small].pop();
-      if (r) return *r;
+      if (r) {
+        large_used += sizes[bucket];
+        return *r;
+      }
       alloc_size = sizes[bucket];
     } else alloc_size = n;
 
@@ -79,15 +91,16 @@ struct pool_allocator {
 
     void* a = ::operator new(alloc_size, std::align_val_t{max_alignment});
 
-    large_allocated += n;
+    large_allocated += accounted_size(n);
+    large_used += accounted_size(n);
     return a;
   }
 
   void deallocate_large(void* ptr, size_t n) {
-    large_used -= n;
+    large_used -= accounted_size(n);
     if (n > max_size) {
       ::operator delete(ptr, std::align_val_t{max_alignment});
-      large_allocated -= n;
+      large_allocated -= accounted_size(n);
     } else {
       size_t bucket = num_small;
       while (n > sizes[bucket]) bucket++;
-- 
2.43.0


From 10c7451cc7e7b543509b23037825dc5c1e540671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 08/50] fix: allocator must not assert the alignment of a block
 of zero elements

---
 include/parlay/alloc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/alloc.h b/include/parlay/alloc.h
index 7d91981..a69b262 100644
--- a/include/parlay/alloc.h
+++ b/include/parlay/alloc.h
@@ -165,12 +165,12 @@ struct allocator {
     else {
       // Should be suitably aligned for alignments up to pool_allocator::max_alignment
       void* buffer = internal::get_default_allocator().allocate(n * sizeof(T));
-      assert(reinterpret_cast<uintptr_t>(buffer) % alignof(T) == 0);
+      assert(n == 0 || reinterpret_cast<uintptr_t>(buffer) % alignof(T) == 0);
       return static_cast<T*>(buffer);
     }
   }
   void deallocate(T* ptr, [[maybe_unused]] size_t n) {
-    assert(reinterpret_cast<uintptr_t>(ptr) % alignof(T) == 0);
+    assert(n == 0 || reinterpret_cast<uintptr_t>(ptr) % alignof(T) == 0);
     if constexpr (alignof(T) > internal::pool_allocator::max_alignment) {
       p_free(static_cast<void*>(ptr));
     }
-- 
2.43.0


From a16afe034160b7d8fe9b46feae51aa64adc15454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 09/50] fix: block_allocator leaked a buffer and miscounted
 when it could not record it

---
 include/parlay/internal/block_allocator.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/block_allocator.h b/include/parlay/internal/block_allocator.h
index a3d8683..103ae6d 100644
--- a/include/parlay/internal/block_allocator.h
+++ b/include/parlay/internal/block_allocator.h
@@ -20,6 +20,7 @@
 #include <algorithm>
 #include <atomic>
 #include <iostream>
+#include <memory>
 #include <new>
 #include <optional>
 
@@ -101,10 +102,14 @@ struct block_allocator {
     auto buffer = static_cast<std::byte*>(::operator new(num_blocks * block_size, block_align));
     assert(buffer != nullptr);
 
+    // Gives the buffer back if keeping track of it runs out of memory
+    auto deleter = [this](std::byte* b) { ::operator delete(b, block_align); };
+    std::unique_ptr<std::byte, decltype(deleter)> owner(buffer, deleter);
+    allocated_buffers.push(buffer); // keep track so can free later
+    owner.release();
+
     blocks_allocated.fetch_add(num_blocks);
     assert(blocks_allocated.load() <= max_blocks);
-
-    allocated_buffers.push(buffer); // keep track so can free later
     return buffer;
   }
 
-- 
2.43.0


From 62293e553e5d6ff6b6f7536d0ef70eea226571b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 10/50] fix: running out of memory while reclaiming made
 hazptr_stack::pop lose the element it popped

---
 .../internal/concurrency/acquire_retire.h     | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/concurrency/acquire_retire.h b/include/parlay/internal/concurrency/acquire_retire.h
index 1b64384..3a83e7d 100644
--- a/include/parlay/internal/concurrency/acquire_retire.h
+++ b/include/parlay/internal/concurrency/acquire_retire.h
@@ -8,6 +8,7 @@
 #include <algorithm>      // IWYU pragma: keep
 #include <atomic>
 #include <memory>
+#include <new>            // IWYU pragma: keep
 #include <type_traits>    // IWYU pragma: keep
 #include <unordered_set>
 #include <utility>        // IWYU pragma: keep
@@ -146,13 +147,29 @@ class intrusive_acquire_retire {
       data->in_progress = true;
 
       std::unordered_set<T*> announced;
-      scan_slots([&](T* reserved) { announced.insert(reserved); });
-      data->retired.cleanup([&](T* p) { return announced.count(p) != 0; }, deleter);
+      if (collect_announced(announced)) {
+        data->retired.cleanup([&](T* p) { return announced.count(p) != 0; }, deleter);
+      }
 
       data->in_progress = false;
     }
   }
 
+  // Returns false if there is not enough memory to do so. In this case, nothing can be ejected
+  // for now, but since it will be attempted again later, this must not fail the call to retire.
+  bool collect_announced(std::unordered_set<T*>& announced) {
+#if defined(PARLAY_EXCEPTIONS_ENABLED)
+    try {
+#endif
+      scan_slots([&](T* reserved) { announced.insert(reserved); });
+#if defined(PARLAY_EXCEPTIONS_ENABLED)
+    } catch (const std::bad_alloc&) {
+      return false;
+    }
+#endif
+    return true;
+  }
+
   struct ThreadData {
     std::atomic<T*> announcement{nullptr};
     bool in_progress{false};                    // cppcheck-suppress unusedStructMember
-- 
2.43.0


From 09c9958994e683a9421727860a4e688ef7d7c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 11/50] fix: hashtable::count and hashtable::get_index did not
 compile (addm is not a monoid)

---
 include/parlay/hash_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index 9452bf4..e0088da 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -226,7 +226,7 @@ class hashtable {
   // returns the number of entries
   size_t count() {
     auto is_full = [&](size_t i) -> size_t { return (TA[i] == empty) ? 0 : 1; };
-    return internal::reduce(delayed_seq<size_t>(m, is_full), addm<size_t>());
+    return internal::reduce(delayed_seq<size_t>(m, is_full), plus<size_t>());
   }
 
   // returns all the current entries compacted into a sequence
@@ -260,7 +260,7 @@ class hashtable {
         return 0;
     };
     auto x = sequence<index>::from_function(m, is_full);
-    internal::scan_inplace(make_slice(x), addm<index>());
+    internal::scan_inplace(make_slice(x), plus<index>());
     return x;
   }
 
-- 
2.43.0


From a23d4550fa63a5bcf1e307ada3e77889b3b10c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 12/50] fix: data race in hashtable: entries modified by a
 concurrent cas were read non-atomically

---
 include/parlay/hash_table.h | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index e0088da..89dcb1d 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <iostream>
+#include <type_traits>
 
 #include "delayed_sequence.h"
 #include "parallel.h"
@@ -59,6 +60,16 @@ class hashtable {
   }
   bool lessEqIndex(index a, index b) { return a == b || lessIndex(a, b); }
 
+  // Reads an entry that other threads may concurrently be modifying with hashStruct.cas
+  eType read_entry(index i) {
+    if constexpr (std::is_trivially_copyable_v<eType> && sizeof(eType) <= sizeof(void*) &&
+                  (sizeof(eType) & (sizeof(eType) - 1)) == 0) {
+      return reinterpret_cast<std::atomic<eType>*>(&TA[i])->load(std::memory_order_acquire);
+    } else {
+      return TA[i];
+    }
+  }
+
  public:
   // Size is the maximum number of values the hash table will hold.
   // Overfilling the table could put it into an infinite loop.
@@ -78,7 +89,7 @@ class hashtable {
   bool insert(eType v) {
     index i = firstIndex(hashStruct.getKey(v));
     while (true) {
-      eType c = TA[i];
+      eType c = read_entry(i);
       if (c == empty) {
         if (hashStruct.cas(&TA[i], c, v)) return true;
       } else {
@@ -105,7 +116,7 @@ class hashtable {
   bool update(eType v) {
     index i = firstIndex(hashStruct.getKey(v));
     while (true) {
-      eType c = TA[i];
+      eType c = read_entry(i);
       if (c == empty) {
         if (hashStruct.cas(&TA[i], c, v)) return true;
       } else {
@@ -133,7 +144,7 @@ class hashtable {
 
     // find first element less than or equal to v in priority order
     index j = i;
-    eType c = TA[j];
+    eType c = read_entry(j);
 
     if (c == empty) return true;
 
@@ -141,7 +152,7 @@ class hashtable {
     while ((cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c))) <
            0) {
       j = incrementIndex(j);
-      c = TA[j];
+      c = read_entry(j);
     }
     while (true) {
       // Invariants:
@@ -157,7 +168,7 @@ class hashtable {
         // moving before h(v)
         if (j == i) return true;
         j = decrementIndex(j);
-        c = TA[j];
+        c = read_entry(j);
         cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c));
       } else {  // found v at location j (at least at some prior time)
 
@@ -168,14 +179,14 @@ class hashtable {
         // Makes use of the fact that values in a cell can only decrease
         // during a delete phase as elements are moved from the right to left.
         index jj = incrementIndex(j);
-        eType x = TA[jj];
+        eType x = read_entry(jj);
         while (x != empty && lessIndex(j, firstIndex(hashStruct.getKey(x)))) {
           jj = incrementIndex(jj);
-          x = TA[jj];
+          x = read_entry(jj);
         }
         index jjj = decrementIndex(jj);
         while (jjj != j) {
-          eType y = TA[jjj];
+          eType y = read_entry(jjj);
           if (y == empty || !lessIndex(j, firstIndex(hashStruct.getKey(y)))) {
             x = y;
             jj = jjj;
@@ -197,7 +208,7 @@ class hashtable {
           j = jj;
           i = firstIndex(v);
         }
-        c = TA[j];
+        c = read_entry(j);
         cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c));
       }
     }
@@ -208,7 +219,7 @@ class hashtable {
   // due to prioritization, can quit early if v is greater than cell
   eType find(kType v) {
     index h = firstIndex(v);
-    eType c = TA[h];
+    eType c = read_entry(h);
     while (true) {
       if (c == empty) return empty;
       int cmp = hashStruct.cmp(v, hashStruct.getKey(c));
@@ -219,7 +230,7 @@ class hashtable {
           return c;
       }
       h = incrementIndex(h);
-      c = TA[h];
+      c = read_entry(h);
     }
   }
 
@@ -237,7 +248,7 @@ class hashtable {
 
   index findIndex(kType v) {
     index h = firstIndex(v);
-    eType c = TA[h];
+    eType c = read_entry(h);
     while (true) {
       if (c == empty) return -1;
       int cmp = hashStruct.cmp(v, hashStruct.getKey(c));
@@ -248,7 +259,7 @@ class hashtable {
           return h;
       }
       h = incrementIndex(h);
-      c = TA[h];
+      c = read_entry(h);
     }
   }
 
-- 
2.43.0


From 3ba406d2435868b0c05da865758c518745c48499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 13/50] fix: counting_sort_by_keys did not compile for ranges
 whose iterators return references

---
 include/parlay/primitives.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 962f557..445cff5 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -488,8 +488,8 @@ template<typename Range>
 [[nodiscard]] auto counting_sort_by_keys(Range&& in, size_t num_buckets) {
   static_assert(is_random_access_range_v<Range>);
   static_assert(is_pair_v<range_reference_type_t<Range>>);
-  static_assert(std::is_integral_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
-  static_assert(std::is_unsigned_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
+  static_assert(std::is_integral_v<std::tuple_element_t<0, range_value_type_t<Range>>>);
+  static_assert(std::is_unsigned_v<std::tuple_element_t<0, range_value_type_t<Range>>>);
   auto values = delayed::values_view(in);
   return internal::count_sort(make_slice(values), delayed::keys_view(in), num_buckets);
 }
-- 
2.43.0


From 0f1cb7f7ec7333084ad050509b1e20ae77fc7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 14/50] fix: integer_sort asserted on inputs containing the
 largest 64-bit key (max key + 1 overflowed)

---
 include/parlay/internal/integer_sort.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index f2fd452..391585e 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -6,6 +6,7 @@
 #include <cstdio>
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -330,7 +331,9 @@ sequence<size_t> integer_sort_(slice<InIterator, InIterator> In,
   if (bits == 0) {
     auto get_key = [&](size_t i) { return static_cast<size_t>(g(In[i])); };
     auto keys = delayed_seq<size_t>(In.size(), get_key);
-    bits = log2_up(internal::reduce(make_slice(keys), maximum<size_t>()) + 1);
+    size_t max_key = internal::reduce(make_slice(keys), maximum<size_t>());
+    // max_key + 1 would overflow if max_key is the largest size_t
+    bits = (max_key == (std::numeric_limits<size_t>::max)()) ? std::numeric_limits<size_t>::digits : log2_up(max_key + 1);
   }
   return integer_sort_r<inplace_tag, assignment_tag>(
     In, Out, Tmp, g, bits, num_buckets);
-- 
2.43.0


From 0ef0fa6e69cef3bb8e8449a8aca3edd7ac94df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 15/50] fix: integer_sort_inplace destroyed elements of
 non-trivially relocatable types (self-relocation when In and Tmp coincide)

---
 include/parlay/internal/integer_sort.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index 391585e..193009a 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <limits>
+#include <memory>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -109,7 +110,11 @@ void seq_radix_sort(slice<InIterator, InIterator> In,
       // can optimize better by calling uninitialized_relocate, since this
       // has the ability to memcpy multiple elements at once
       if constexpr (std::is_same_v<assignment_tag, uninitialized_relocate_tag>) {
-        parlay::uninitialized_relocate(In.begin(), In.end(), Tmp.begin());
+        // If In and Tmp are the same, the elements are already there. They must
+        // not be relocated onto themselves, since that would destroy them.
+        if (n > 0 && std::addressof(In[0]) != std::addressof(Tmp[0])) {
+          parlay::uninitialized_relocate(In.begin(), In.end(), Tmp.begin());
+        }
       }
       else {
         for (size_t i = 0; i < n; i++)
-- 
2.43.0


From cc5038f3d06a30d3461416a4c2064d52f324782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 16/50] fix: histogram_by_index, reduce_by_index and friends
 divided by zero on empty input

---
 include/parlay/internal/collect_reduce.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 49ea7f9..5e7de9c 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -51,12 +51,17 @@ auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets)
   size_t n = A.size();
 
   size_t num_threads = num_workers();
+
+  // if insufficient parallelism, do sequentially. This must be checked before
+  // picking the blocks since n and num_buckets could be zero
+  if (n < CR_SEQ_THRESHOLD || num_threads == 1)
+    return seq_collect_reduce(A, helper, num_buckets);
+
   size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / 64) + 1;
   size_t block_size = ((n - 1) / num_blocks_) + 1;
   size_t num_blocks = (1 + ((n)-1) / (block_size));
 
-  // if insufficient parallelism, do sequentially
-  if (n < CR_SEQ_THRESHOLD || num_blocks == 1 || num_threads == 1)
+  if (num_blocks == 1)
     return seq_collect_reduce(A, helper, num_buckets);
 
   // partial results for each block
-- 
2.43.0


From e09e39a51721aa3fe91881f696213d04143104f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 17/50] fix: group_by_index truncated element positions to the
 type of num_buckets (out-of-bounds, wrong groups for narrow types)

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index a859411..2a92f47 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -331,7 +331,7 @@ auto group_by_index(R&& A, Integer_t num_buckets) {
     size_t bits = log2_up(num_buckets);
     auto sorted = internal::integer_sort(make_slice(A), internal::get_key, bits);
 
-    auto iota = internal::delayed_tabulate(n, [](Integer_t i) { return i; });
+    auto iota = internal::delayed_tabulate(n, [](size_t i) { return i; });
     auto starts = block_delayed::filter(iota, [&] (size_t i) {
 	return (i==0) || internal::get_key(sorted[i-1]) < internal::get_key(sorted[i]);});
     size_t m = starts.size();
-- 
2.43.0


From 83c341d8cbaab4f9217c301e30c4096b36a6b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 18/50] fix: group_by_key_ordered with unsigned integer keys
 ignored a custom comparison function

---
 include/parlay/internal/group_by.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 2a92f47..b1bc584 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -5,6 +5,7 @@
 
 #include <functional>
 #include <tuple>      // IWYU pragma: keep
+#include <type_traits>
 #include <utility>
 
 #include "../monoid.h"
@@ -61,7 +62,10 @@ auto group_by_key_ordered(Range&& S, Comp&& less) {
 
   sequence<KV> sorted;
   auto comp = internal::compare_pairs_by_key(less);
-  if constexpr(std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16) {
+  // integer_sort ignores less, so it can only be used if less is the usual order
+  constexpr bool usual_order = std::is_same_v<std::decay_t<Comp>, std::less<>> ||
+                               std::is_same_v<std::decay_t<Comp>, std::less<K>>;
+  if constexpr(usual_order && std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16) {
     sorted = internal::integer_sort(make_slice(S), internal::get_key);
   } else {
     sorted = internal::sample_sort(make_slice(S), comp, true);
-- 
2.43.0


From 3d04becbf16a9dafece59a90810244a68f1d8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 19/50] fix: remove_duplicate_integers returned integers that
 are not in the input (few buckets, parallel)

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index b1bc584..21bd3b1 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -281,7 +281,7 @@ auto remove_duplicate_integers(R&& A, Integer_t max_value) {
     static key_type get_key(const key_type& a) { return a; }
     static val_type get_val(const key_type&) { return true; }
     static val_type init() { return false; }
-    static void update(val_type& d, val_type) { d = true; }
+    static void update(val_type& d, val_type a) { d = d || a; }
     static void combine(val_type& d, slice<key_type*,key_type*>) {
       d = true; }
   };
-- 
2.43.0


From f0b83d6bdafb5981c1f614da5e7d35f5cb4f2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 20/50] fix: find_first_of passed its predicate the arguments
 in the wrong order

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 445cff5..2260964 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -614,7 +614,7 @@ auto find_first_of(R1&& r1, R2&& r2, BinaryPredicate&& p) {
   static_assert(is_random_access_range_v<R2>);
   static_assert(std::is_invocable_r_v<bool, BinaryPredicate, range_reference_type_t<R1>, range_reference_type_t<R2>>);
   return std::begin(r1) + internal::find_if_index(parlay::size(r1), [&, it = std::begin(r1)] (size_t i) {
-    return find_if(r2, [&, it](auto&& x) { return p(std::forward<decltype(x)>(x), it[i]); }) != std::end(r2);
+    return find_if(r2, [&, it](auto&& x) { return p(it[i], std::forward<decltype(x)>(x)); }) != std::end(r2);
   });
 }
 
-- 
2.43.0


From 0bbc936886f4fe65ef7c72a7ee5b15f1f86e7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 21/50] fix: adjacent_find read outside an empty range (size -
 1 underflowed)

---
 include/parlay/primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 2260964..75aa351 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -632,6 +632,7 @@ template <typename R, typename BinaryPred>
 auto adjacent_find(R&& r, BinaryPred&& p) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, BinaryPred, range_reference_type_t<R>, range_reference_type_t<R>>);
+  if (parlay::size(r) == 0) return std::end(r);
   auto idx = internal::find_if_index(parlay::size(r) - 1,
                  [&p, it = std::begin(r)](size_t i) {
                    return p(it[i], it[i + 1]); });
-- 
2.43.0


From cd906a07f02020deddca5a2c59839152b9df62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 22/50] fix: find_end read out of bounds when the pattern is
 longer than the range

---
 include/parlay/primitives.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 75aa351..a020165 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -701,7 +701,8 @@ auto find_end(R1&& r1, R2&& r2, BinaryPred&& p) {
   size_t n2 = parlay::size(r2);
 
   // According to the C++ standard, std::find_end should return the end iterator if the pattern is empty
-  if (n2 == 0) return std::end(r1);
+  // It should also do so if the pattern is longer than the range
+  if (n2 == 0 || n2 > n1) return std::end(r1);
 
   size_t idx = internal::find_if_index(n1 - n2 + 1, [&](size_t i) {
     size_t j;
-- 
2.43.0


From 9e378ca01545884fb95faaf41b02c03b7e0f6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 23/50] fix: is_sorted and is_sorted_until did not compile for
 ranges without operator<

---
 include/parlay/primitives.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index a020165..1737fe5 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -908,7 +908,7 @@ bool is_sorted(R&& r, Compare&& comp) {
 template <typename R>
 bool is_sorted(R&& r) {
   static_assert(is_random_access_range_v<R>);
-  static_assert(is_less_than_comparable_v<R>);
+  static_assert(is_less_than_comparable_v<range_reference_type_t<R>>);
   return parlay::is_sorted(std::forward<R>(r), std::less<>());
 }
 
@@ -922,9 +922,9 @@ auto is_sorted_until(R&& r, Compare&& comp) {
 }
 
 template <typename R>
-auto is_sorted_until(R& r) {
+auto is_sorted_until(R&& r) {
   static_assert(is_random_access_range_v<R>);
-  static_assert(is_less_than_comparable_v<R>);
+  static_assert(is_less_than_comparable_v<range_reference_type_t<R>>);
   return parlay::is_sorted_until(std::forward<R>(r), std::less<>());
 }
 
-- 
2.43.0


From ab63f6024ab25bb3576d080fe89a4b54c303c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 24/50] fix: kth_smallest recursed once per duplicate of a
 pivot (stack overflow on many equal elements)

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 1737fe5..95f909c 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1288,7 +1288,7 @@ auto kth_smallest_copy(Range&& in, size_t k, Compare&& less = {}) {
   // elements from the bucket when recursing in case there is a massive number of
   // duplicates of the pivot element
   auto filtered_bucket = parlay::pack(in, parlay::tabulate(n, [&] (size_t i) -> bool {
-    return ids[i] == id && (ids[i] == sample_size || it[i] != pivots[ids[i]]);
+    return ids[i] == id && (ids[i] == sample_size || less(it[i], pivots[ids[i]]) || less(pivots[ids[i]], it[i]));
   }));
   assert(filtered_bucket.size() <= bucket_length);
   auto filtered_bucket_length = filtered_bucket.size();
-- 
2.43.0


From b253fcf1a0b3d9028c7e11ebb1595836621364c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 25/50] fix: tokens on short ranges mis-split when the
 separator predicate returns non-bool values

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 95f909c..83982a0 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1049,7 +1049,7 @@ auto map_tokens_small(R&& r, UnaryOp&& f, UnaryPred&& is_space = is_whitespace)
                                internal::delayed::filter_op(
                                  parlay::iota<size_t>(n + 1),
                                  [&](size_t i) -> std::optional<size_t> {
-    if ((i == 0) ? !is_space(S[0]) : (i == n) ? !is_space(S[n - 1]) : is_space(S[i - 1]) != is_space(S[i]))
+    if ((i == 0) ? !is_space(S[0]) : (i == n) ? !is_space(S[n - 1]) : static_cast<bool>(is_space(S[i - 1])) != static_cast<bool>(is_space(S[i])))
       return std::make_optional(i);
     else
       return std::nullopt;
-- 
2.43.0


From 7c784004e9930c440923030eb45e8ed44b61e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 26/50] fix: map_tokens with a void function did not compile
 for delayed sequences

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 83982a0..fca16ea 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1114,7 +1114,7 @@ auto map_tokens(R&& r, UnaryOp&& f, UnaryPred&& is_space = is_whitespace) {
 
   if constexpr (std::is_same_v<f_return_type, void>)
     internal::delayed::apply(z, [&](auto&& x) {
-      if (is_end(std::get<1>(x))) f(make_slice(std::get<0>(x).second + start, std::get<1>(x) + start));
+      if (is_end(std::get<1>(x))) f(make_slice(start + std::get<0>(x).second, start + std::get<1>(x)));
     });
   else {
     auto result = sequence<f_return_type>::uninitialized(sum.first);
-- 
2.43.0


From fa85c4aace8b777ca51260f4ca4e980d6e726f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 27/50] fix: delayed::scan_inclusive over a single block read
 past its block sums

---
 include/parlay/internal/delayed/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 56bbf0a..733660d 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -61,7 +61,7 @@ struct block_delayed_scan_t :
       total = parlay::internal::scan_inplace(make_slice(block_sums), parlay::make_monoid(*(op.get()), identity));
     }
     else {
-      block_sums = sequence<T>(1, identity);
+      block_sums = sequence<T>(2, identity);
     }
 
     // If inclusive, each block needs to initially include its first value
-- 
2.43.0


From 4fb9df83ea89b8ae609655e5e018920ef27d38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 28/50] fix: default-constructed iterators of delayed::zip had
 an indeterminate position

---
 include/parlay/internal/delayed/zip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/zip.h b/include/parlay/internal/delayed/zip.h
index cf2fc62..4321d7d 100644
--- a/include/parlay/internal/delayed/zip.h
+++ b/include/parlay/internal/delayed/zip.h
@@ -75,7 +75,7 @@ struct block_delayed_zip_t : public block_iterable_view_base<void, block_delayed
     // Conversion from non-const iterator to const iterator
     /* implicit */ iterator_t(const iterator_t<false>& other) : index(other.index), its(other.its) {}
 
-    iterator_t() : its{} {}
+    iterator_t() : index(0), its{} {}
 
    private:
     friend parent_type;
-- 
2.43.0


From 105423e07c3589deda1debd63256045c4faf94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 29/50] fix: delayed filter and flatten views dangled after
 being moved into another view

---
 include/parlay/internal/delayed/common.h  | 43 +++++++++++++++++++----
 include/parlay/internal/delayed/filter.h  |  4 +--
 include/parlay/internal/delayed/flatten.h |  9 +++--
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/include/parlay/internal/delayed/common.h b/include/parlay/internal/delayed/common.h
index fef4623..220754a 100644
--- a/include/parlay/internal/delayed/common.h
+++ b/include/parlay/internal/delayed/common.h
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <memory>
 #include <utility>
 #include <type_traits>
 
@@ -140,7 +141,34 @@ using view_storage_type = std::conditional_t<std::is_lvalue_reference_v<T>,
                             std::reference_wrapper<std::remove_reference_t<T>>,
                                                    std::remove_reference_t<T>>;
 
-template<typename UnderlyingView>
+// Some views (filter, flatten) keep iterators into the view that they transform. If
+// such a view owns the underlying view, it must therefore keep it at a fixed address
+// so that those iterators remain valid when it is moved. Copies are deep copies.
+template<typename T>
+struct stable_view_storage {
+  stable_view_storage(T&& v) : view(std::make_unique<T>(std::move(v))) { }
+
+  stable_view_storage(const stable_view_storage& other) : view(std::make_unique<T>(*(other.view))) { }
+  stable_view_storage(stable_view_storage&& other) noexcept = default;
+
+  stable_view_storage& operator=(stable_view_storage other) noexcept {
+    std::swap(view, other.view);
+    return *this;
+  }
+
+  operator T&() { return *view; }
+  operator const T&() const { return *view; }
+
+ private:
+  std::unique_ptr<T> view;
+};
+
+template<typename T>
+using stable_view_storage_type = std::conditional_t<std::is_lvalue_reference_v<T>,
+                                   view_storage_type<T>,
+                                   stable_view_storage<std::remove_reference_t<T>>>;
+
+template<typename UnderlyingView, bool Stable>
 struct block_iterable_view_base_data {
   explicit block_iterable_view_base_data(UnderlyingView&& v) : view_m(static_cast<UnderlyingView&&>(v)) { }
 
@@ -148,11 +176,11 @@ struct block_iterable_view_base_data {
   const UnderlyingView& base_view() const { return view_m; }
 
  private:
-  view_storage_type<UnderlyingView> view_m;
+  std::conditional_t<Stable, stable_view_storage_type<UnderlyingView>, view_storage_type<UnderlyingView>> view_m;
 };
 
-template<>
-struct block_iterable_view_base_data<void> { };
+template<bool Stable>
+struct block_iterable_view_base_data<void, Stable> { };
 
 // This base class helps to implement block-iterable delayed views.
 //
@@ -183,8 +211,9 @@ struct block_iterable_view_base_data<void> { };
 // Template arguments:
 //  UnderlyingView: the type of the underlying view that is being transformed
 //  Parent: the type of the parent view class (CRTP)
-template<typename UnderlyingView, typename Parent>
-struct block_iterable_view_base : public block_iterable_view_base_data<UnderlyingView> {
+//  Stable: true if the parent view keeps iterators into the underlying view
+template<typename UnderlyingView, typename Parent, bool Stable = false>
+struct block_iterable_view_base : public block_iterable_view_base_data<UnderlyingView, Stable> {
  public:
 
   // Returns an interator pointing to the end of block i
@@ -213,7 +242,7 @@ struct block_iterable_view_base : public block_iterable_view_base_data<Underlyin
 
   template<typename UV>
   explicit block_iterable_view_base(UV&& v, int)
-    : block_iterable_view_base_data<UnderlyingView>(std::forward<UV>(v)) { }
+    : block_iterable_view_base_data<UnderlyingView, Stable>(std::forward<UV>(v)) { }
 
  private:
   Parent* parent() { return static_cast<Parent*>(this); }
diff --git a/include/parlay/internal/delayed/filter.h b/include/parlay/internal/delayed/filter.h
index f73b50c..1cdfac3 100644
--- a/include/parlay/internal/delayed/filter.h
+++ b/include/parlay/internal/delayed/filter.h
@@ -22,10 +22,10 @@ namespace delayed {
 
 template<typename UnderlyingView, typename UnaryPredicate>
 struct block_delayed_filter_t :
-    public block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>> {
+    public block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>, true> {
 
  private:
-  using base = block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>>;
+  using base = block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>, true>;
   using base::base_view;
 
   static_assert(is_block_iterable_range_v<UnderlyingView>);
diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index ce4874b..645ccde 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -28,14 +28,14 @@ namespace delayed {
 
 template<typename UnderlyingView>
 struct block_delayed_flatten_t :
-    public block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>> {
+    public block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>, true> {
 
  private:
   static_assert(is_block_iterable_range_v<UnderlyingView>);
   static_assert(is_forward_range_v<range_reference_type_t<UnderlyingView>>);
   static_assert(std::is_reference_v<range_reference_type_t<UnderlyingView>>);
 
-  using base = block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>>;
+  using base = block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>, true>;
   using base::base_view;
 
   using outer_iterator_type = range_iterator_type_t<UnderlyingView>;
@@ -244,7 +244,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   using base = block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>>;
 
   using inner_sequence_type = range_value_type_t<UnderlyingView>;
-  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>&>;
+  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>>;
 
  public:
   using value_type = range_value_type_t<range_value_type_t<UnderlyingView>>;
@@ -255,7 +255,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
 
   template<typename UV>
   block_delayed_flatten_copy_t(UV&& v, int) : base(),
-      data(parlay::internal::delayed::to_sequence(std::forward<UV>(v))), result(data, 0) {
+      result(parlay::internal::delayed::to_sequence(std::forward<UV>(v)), 0) {
 
   }
 
@@ -273,7 +273,6 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
-  sequence<inner_sequence_type> data;
   flattener_type result;
 };
 
-- 
2.43.0


From 298bdee05af59751964c0f815026da61051fbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 30/50] fix: assigning delayed filter or flatten views swapped
 the contents of the ranges they refer to

---
 include/parlay/internal/delayed/common.h  | 6 ++++++
 include/parlay/internal/delayed/filter.h  | 3 ++-
 include/parlay/internal/delayed/flatten.h | 3 ++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/delayed/common.h b/include/parlay/internal/delayed/common.h
index 220754a..65c2885 100644
--- a/include/parlay/internal/delayed/common.h
+++ b/include/parlay/internal/delayed/common.h
@@ -175,6 +175,12 @@ struct block_iterable_view_base_data {
   UnderlyingView& base_view() { return view_m; }
   const UnderlyingView& base_view() const { return view_m; }
 
+  // Swaps which view is referred to or owned. Never swaps the contents of a referenced view
+  void swap_view(block_iterable_view_base_data& other) {
+    using std::swap;
+    swap(view_m, other.view_m);
+  }
+
  private:
   std::conditional_t<Stable, stable_view_storage_type<UnderlyingView>, view_storage_type<UnderlyingView>> view_m;
 };
diff --git a/include/parlay/internal/delayed/filter.h b/include/parlay/internal/delayed/filter.h
index 1cdfac3..2f1f51f 100644
--- a/include/parlay/internal/delayed/filter.h
+++ b/include/parlay/internal/delayed/filter.h
@@ -27,6 +27,7 @@ struct block_delayed_filter_t :
  private:
   using base = block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>, true>;
   using base::base_view;
+  using base::swap_view;
 
   static_assert(is_block_iterable_range_v<UnderlyingView>);
   static_assert(std::is_invocable_r_v<bool, UnaryPredicate, range_reference_type_t<UnderlyingView>>);
@@ -55,7 +56,7 @@ struct block_delayed_filter_t :
 
   friend void swap(block_delayed_filter_t& first, block_delayed_filter_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    first.swap_view(second);
     swap(first.result, second.result);
     swap(first.p, second.p);
   }
diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 645ccde..c2168cd 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -37,6 +37,7 @@ struct block_delayed_flatten_t :
 
   using base = block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>, true>;
   using base::base_view;
+  using base::swap_view;
 
   using outer_iterator_type = range_iterator_type_t<UnderlyingView>;
   using inner_iterator_type = range_iterator_type_t<range_reference_type_t<UnderlyingView>>;
@@ -65,7 +66,7 @@ struct block_delayed_flatten_t :
 
   friend void swap(block_delayed_flatten_t& first, block_delayed_flatten_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    first.swap_view(second);
     swap(first.n_blocks, second.n_blocks);
     swap(first.n_elements, second.n_elements);
     swap(first.outer_starts, second.outer_starts);
-- 
2.43.0


From f2bbee20d838b71547af1856dd7a7521c9b397da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 31/50] fix: delayed::scan over a C array did not compile

---
 include/parlay/internal/delayed/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 733660d..b76bd3f 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -131,7 +131,7 @@ struct block_delayed_scan_t :
   auto get_total() const { return total; }
 
   // Returns the number of elements in the range
-  [[nodiscard]] size_t size() const { return base_view().size(); }
+  [[nodiscard]] size_t size() const { return parlay::size(base_view()); }
 
   // Returns the number of blocks in the range
   auto get_num_blocks() const { return num_blocks(base_view()); }
-- 
2.43.0


From 4903c0ec9b68685f2d7503c53ac374f07d28b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 32/50] fix: delayed::zip did not compile for containers passed
 as rvalues

---
 include/parlay/internal/delayed/zip.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/zip.h b/include/parlay/internal/delayed/zip.h
index 4321d7d..150e18a 100644
--- a/include/parlay/internal/delayed/zip.h
+++ b/include/parlay/internal/delayed/zip.h
@@ -123,7 +123,9 @@ template<typename... UnderlyingViews,
 auto zip(UnderlyingViews&&... vs) {
   static_assert(sizeof...(UnderlyingViews) >= 1, "zip should have at least one argument");
   using value_type = std::tuple<range_value_type_t<UnderlyingViews>...>;
-  using reference_type = std::tuple<range_reference_type_t<UnderlyingViews>...>;
+
+  // Views that are owned by the result are accessed as const
+  using reference_type = std::tuple<range_reference_type_t<std::add_const_t<UnderlyingViews>>...>;
 
   auto size = (std::min)({parlay::size(vs)...});
   return parlay::internal::delayed_tabulate<reference_type, value_type>(size,
-- 
2.43.0


From 5deb0a1b8488ecfd226ec8ea8db1e40cca36012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 33/50] fix: remove_if applied its predicate twice to each
 element (wrong results for stateful predicates)

---
 include/parlay/primitives.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index fca16ea..aac2ce7 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -952,9 +952,8 @@ auto remove_if(R&& r, UnaryPred&& pred) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, UnaryPred, range_reference_type_t<R>>);
   static_assert(std::is_constructible_v<range_value_type_t<R>, range_reference_type_t<R>>);
-  auto flags = delayed_seq<bool>(parlay::size(r),
-    [&pred, it = std::begin(r)](size_t i) { return !pred(it[i]); });
-  return internal::pack(r, flags);
+  // Note: not a pack with delayed flags, which would apply pred twice to each element
+  return internal::filter(make_slice(r), [&](auto&& x) -> bool { return !pred(std::forward<decltype(x)>(x)); });
 }
 
 template<typename R, typename T>
-- 
2.43.0


From d1201c3831f01402cd7bd49939ac9644b6c6fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 34/50] fix: uninitialized_relocate_n relocated nothing for
 trivially relocatable types larger than 8192 bytes

---
 include/parlay/relocation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index 0803827..e3c75a1 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -94,7 +94,8 @@ inline std::pair<InputIterator, NoThrowForwardIterator> uninitialized_relocate_n
   // The most efficient scenario -- The objects are trivially relocatable and the iterators
   // point to contiguous memory so, we can memcpy chunks of more than one T object at a time.
   if constexpr (contiguous && trivially_relocatable) {
-    constexpr size_t chunk_size = 1024 * sizeof(size_t) / sizeof(T);
+    // Note: At least one object per chunk, even if the objects are bigger than the desired chunk
+    constexpr size_t chunk_size = (std::max<size_t>)(1, 1024 * sizeof(size_t) / sizeof(T));
     const size_t n_chunks = (n + chunk_size - 1) / chunk_size;
     parallel_for(0, n_chunks, [&](size_t i) {
       size_t n_objects = (std::min)(chunk_size, n - i * chunk_size);
-- 
2.43.0


From 9776bc55e42e54ebf45d495a2cb6b35c9cf599a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 35/50] fix: moved-from and move-assigned
 uninitialized_sequences freed a null buffer, leaked or ran off the end

---
 .../parlay/internal/uninitialized_sequence.h  | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/parlay/internal/uninitialized_sequence.h b/include/parlay/internal/uninitialized_sequence.h
index 1d24560..586631c 100644
--- a/include/parlay/internal/uninitialized_sequence.h
+++ b/include/parlay/internal/uninitialized_sequence.h
@@ -63,8 +63,13 @@ class uninitialized_sequence {
              : allocator_type(alloc),
                n(_n),
                data(std::allocator_traits<allocator_type>::allocate(*this, n)) { }
-    ~uninitialized_sequence_impl() {
-      std::allocator_traits<allocator_type>::deallocate(*this, data, n);
+    ~uninitialized_sequence_impl() { deallocate_buffer(); }
+
+    // Moved-from sequences have no buffer
+    void deallocate_buffer() {
+      if (data != nullptr) {
+        std::allocator_traits<allocator_type>::deallocate(*this, data, n);
+      }
     }
 
     // Delete copy for uninitialized sequences
@@ -85,15 +90,19 @@ class uninitialized_sequence {
       // If uninitialized memory debugging is turned on, make sure that
       // each object of type UninitializedTracker is destroyed or still
       // uninitialized by the time this sequence is destroyed
-      auto buffer = impl.data;
-      parallel_for(0, impl.n, [&](size_t i) {
+      auto buffer = data;
+      parallel_for(0, n, [&](size_t i) {
         PARLAY_ASSERT_UNINITIALIZED(buffer[i]);
       });
 #endif
-      n = 0;
-      data = nullptr;
-      std::swap(n, other.n);
-      std::swap(data, other.data);
+      if (this != std::addressof(other)) {
+        deallocate_buffer();
+        n = 0;
+        data = nullptr;
+        std::swap(n, other.n);
+        std::swap(data, other.data);
+      }
+      return *this;
     }
 
   } impl;
-- 
2.43.0


From bbaa4f0fb892da89772ae9d7ab6638cf16d404fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 36/50] fix: comparing sequences of elements larger than 8192
 bytes never ended

---
 include/parlay/sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4970214..67facba 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -662,7 +662,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   template<typename Iterator_>
   bool compare_equal(Iterator_ other, size_t granularity = 0) const {
     if (granularity == 0) {
-      granularity = 1024 * sizeof(size_t) / sizeof(value_type);
+      granularity = (std::max<size_t>)(1, 1024 * sizeof(size_t) / sizeof(value_type));
     }
     auto n = size();
     auto self = begin();
-- 
2.43.0


From 5d6e4db9c294070b220f3b4706c28a06cff29060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 37/50] fix: relocating into a different element type
 constructed an object of the source type

---
 include/parlay/relocation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index e3c75a1..971534a 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -54,7 +54,7 @@ namespace parlay {
 // Relocate from source to dest, which may be of different
 // (but compatible) types, which is equivalent to
 //
-//   ::new (voidify(dest)) T(std::move(source));
+//   ::new (voidify(dest)) U(std::move(source));
 //   std::destroy_at(std::addressof(source));
 //
 template<typename T, typename U>
@@ -67,7 +67,7 @@ inline void relocate_or_move_and_destroy(T& source, U& dest) {
   }
   else {
     PARLAY_ASSERT_UNINITIALIZED(dest);
-    ::new (voidify(dest)) T(std::move(source));
+    ::new (voidify(dest)) U(std::move(source));
     std::destroy_at(std::addressof(source));
     PARLAY_ASSERT_UNINITIALIZED(source);
   }
-- 
2.43.0


From 586e8d8907736b9ce337ad5e07fbb1392608a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 38/50] fix: inserting or appending an element of the sequence
 itself read it after it was relocated

---
 include/parlay/sequence.h | 42 ++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 67facba..39985c5 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -232,6 +232,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (p == end()) {
       return emplace_back(std::forward<Args>(args)...);
     } else {
+      // The arguments might refer to elements of this sequence,
+      // so they must be used before any element is relocated
+      value_type v(std::forward<Args>(args)...);
+
       // p might be invalidated when the capacity is increased,
       // so we need to remember where it occurs in the sequence
       auto pos = p - begin();
@@ -242,7 +246,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // append since we ensured that there was sufficient capacity already,
       // so a second reallocation will never happen after this point
       auto the_tail = pop_tail(p);
-      auto it = emplace_back(std::forward<Args>(args)...);
+      auto it = emplace_back(std::move(v));
       append(std::move(the_tail));
       return it;
     }
@@ -250,6 +254,17 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 
   template<typename... Args>
   iterator emplace_back(Args&&... args) {
+    if constexpr (std::is_move_constructible_v<value_type>) {
+      if (size() == capacity()) {
+        // The arguments might refer to elements of this sequence,
+        // so they must be used before the elements are relocated
+        value_type v(std::forward<Args>(args)...);
+        storage.ensure_capacity(size() + 1);
+        storage.initialize(end(), std::move(v));
+        storage.set_size(size() + 1);
+        return end() - 1;
+      }
+    }
     storage.ensure_capacity(size() + 1);
     storage.initialize(end(), std::forward<Args>(args)...);
     storage.set_size(size() + 1);
@@ -373,12 +388,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
         parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
       }
     } else {
-      storage.ensure_capacity(new_size);
-      assert(storage.capacity() >= new_size);
-      auto buffer = storage.data();
-      parallel_for(
-          current, new_size, [&](size_t i) { storage.initialize_explicit(&buffer[i], v); },
-          copy_granularity(new_size - current));
+      append_n(new_size - current, v);
     }
     storage.set_size(new_size);
   }
@@ -588,7 +598,18 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator append_n(size_t n, const value_type& t) {
-    storage.ensure_capacity(size() + n);
+    if (capacity() - size() >= n) {
+      return append_n_within_capacity(n, t);
+    } else {
+      // t might be an element of this sequence, which is about to be relocated
+      const value_type v(t);
+      storage.ensure_capacity(size() + n);
+      return append_n_within_capacity(n, v);
+    }
+  }
+
+  iterator append_n_within_capacity(size_t n, const value_type& t) {
+    assert(capacity() - size() >= n);
     auto it = end();
     parallel_for(0, n, [&](size_t i) {
       storage.initialize_explicit(it + i, t);
@@ -629,7 +650,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     }
   }
 
-  iterator insert_n(iterator p, size_t n, const value_type& v) {
+  iterator insert_n(iterator p, size_t n, const value_type& t) {
+    // t might be an element of this sequence, which is about to be relocated
+    const value_type v(t);
+
     // p might be invalidated when the capacity is increased,
     // so we have to remember where it is in the sequence
     auto pos = p - begin();
-- 
2.43.0


From 4399542c07d5b098e747210d784cb2c160a77b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 39/50] fix: requesting a sequence whose size in bytes
 overflows allocated a too small buffer

---
 include/parlay/internal/sequence_base.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index 1f85a47..1a62843 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -14,8 +14,11 @@
 #include <cstring>
 
 #include <array>
+#include <limits>
 #include <memory>
 #include <new>
+#include <stdexcept>
+#include <string>
 #include <type_traits>
 #include <utility>
 
@@ -280,6 +283,12 @@ struct alignas(uint64_t) sequence_base {
         };
 
         static header* create(size_t capacity, raw_allocator_type& a) {
+          // The size of the buffer must be representable, or a smaller one would be allocated
+          constexpr size_t max_bytes = (std::numeric_limits<std::ptrdiff_t>::max)();
+          if (capacity > (max_bytes - offsetof(header, data)) / sizeof(value_type) || capacity > _max_size) {
+            throw_exception_or_terminate<std::length_error>("sequence of length " + std::to_string(capacity) +
+                                                            " exceeds the maximum size");
+          }
           auto buffer_size = offsetof(header, data) + capacity * sizeof(value_type);
           std::byte* bytes = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size);
           return new (bytes) header(capacity);
-- 
2.43.0


From 003341f515b31da6ebc9ec2457a174cc6cc4c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 40/50] fix: inserting a range lost the elements behind the
 position when memory ran out

---
 include/parlay/sequence.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 39985c5..4e869ad 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -333,8 +333,11 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator insert(iterator p, sequence_type&& r) {
+    // Allocate everything that is needed before removing the
+    // tail, so that no elements are lost if allocation fails
     auto idx = p - begin();
-    auto the_tail = pop_tail(p);
+    storage.ensure_capacity(size() + r.size());
+    auto the_tail = pop_tail(begin() + idx);
     append(std::move(r));
     append(std::move(the_tail));
     return begin() + idx;   // p might be invalidated since append could reallocate
@@ -673,11 +676,19 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   iterator insert_range(iterator p, Iterator_ first, Iterator_ last) {
     static_assert(is_input_iterator_v<Iterator_>);
 
-    auto the_tail = pop_tail(p);
-    auto it = append(first, last);
-    auto pos = it - begin();
-    append(std::move(the_tail));
-    return begin() + pos;
+    auto pos = p - begin();
+    if constexpr (is_forward_iterator_v<Iterator_>) {
+      // Allocate everything that is needed before removing the
+      // tail, so that no elements are lost if allocation fails
+      storage.ensure_capacity(size() + std::distance(first, last));
+      auto the_tail = pop_tail(begin() + pos);
+      append_range(first, last);
+      append(std::move(the_tail));
+      return begin() + pos;
+    }
+    else {
+      return insert(begin() + pos, sequence_type(first, last));
+    }
   }
 
   // Return true if this sequence compares equal to the sequence
-- 
2.43.0


From b6b87b4288d7fc26b1980f231f25fc30eff2ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 41/50] fix: to_sequence and to_vector of elements that a
 pointer converts to (such as bool) made two elements from the iterators

---
 include/parlay/sequence.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4e869ad..ca6e177 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -508,7 +508,8 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 #endif
 
   std::vector<T> to_vector() const {
-    return {begin(), end()};
+    // Not a braced list, which could mean a list of two elements made from the iterators
+    return std::vector<T>(begin(), end());
   }
 
  private:
@@ -767,7 +768,8 @@ template<typename R>
 inline auto to_sequence(R&& r) -> sequence<range_value_type_t<R>> {
   static_assert(is_random_access_range_v<R> || !is_block_iterable_range_v<R>,
       "You called parlay::to_sequence on a delayed (block-iterable) range. You probably meant to call parlay::delayed::to_sequence");
-  return {std::begin(r), std::end(r)};
+  // Not a braced list, which could mean a list of two elements made from the iterators
+  return sequence<range_value_type_t<R>>(std::begin(r), std::end(r));
 }
 
 // Convert an arbitrary range into a (short) sequence
@@ -778,7 +780,8 @@ template<typename R>
 inline auto to_short_sequence(R&& r) -> short_sequence<range_value_type_t<R>> {
   static_assert(is_random_access_range_v<R> || !is_block_iterable_range_v<R>,
       "You called parlay::to_sequence on a delayed (block-iterable) range. You probably meant to call parlay::delayed::to_sequence");
-  return {std::begin(r), std::end(r)};
+  // Not a braced list, which could mean a list of two elements made from the iterators
+  return short_sequence<range_value_type_t<R>>(std::begin(r), std::end(r));
 }
 
 // Convert an arbitrary range into a sequence of type T, and optionally
@@ -787,7 +790,8 @@ template<typename T, typename Alloc = internal::sequence_default_allocator<T>, t
 inline auto to_sequence(R&& r) -> sequence<T, Alloc> {
   static_assert(is_random_access_range_v<R> || !is_block_iterable_range_v<R>,
       "You called parlay::to_sequence on a delayed (block-iterable) range. You probably meant to call parlay::delayed::to_sequence");
-  return {std::begin(r), std::end(r)};
+  // Not a braced list, which could mean a list of two elements made from the iterators
+  return sequence<T, Alloc>(std::begin(r), std::end(r));
 }
 
 // Convert an arbitrary range into a (short) sequence of type T, and optionally
@@ -796,7 +800,8 @@ template<typename T, typename Alloc = internal::sequence_default_allocator<T>, t
 inline auto to_short_sequence(R&& r) -> short_sequence<T, Alloc> {
   static_assert(is_random_access_range_v<R> || !is_block_iterable_range_v<R>,
       "You called parlay::to_sequence on a delayed (block-iterable) range. You probably meant to call parlay::delayed::to_sequence");
-  return {std::begin(r), std::end(r)};
+  // Not a braced list, which could mean a list of two elements made from the iterators
+  return short_sequence<T, Alloc>(std::begin(r), std::end(r));
 }
 
 
-- 
2.43.0


From ad76ca15868c9e71226d247d02d7788759005b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 42/50] fix: inserting zero copies at the beginning returned a
 dangling iterator

---
 include/parlay/sequence.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index ca6e177..61efec8 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -664,13 +664,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
-    // Note that "it" is guaranteed to remain valid even after the call to
-    // append since we ensured that there was sufficient capacity already,
-    // so a second reallocation will never happen after this point
+    // Note that append might move assign the tail if n is zero and
+    // p is the beginning, so the position has to be computed again
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, v);
+    append_n(n, v);
     append(std::move(the_tail));
-    return it;
+    return begin() + pos;
   }
 
   template<typename Iterator_>
-- 
2.43.0


From 9691a3d69558abb0c5354e776eb60dc71b133018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 43/50] fix: tasks that found a mismatch while comparing
 sequences raced on the result

---
 include/parlay/sequence.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 61efec8..b09f573 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -10,6 +10,7 @@
 #ifndef PARLAY_SEQUENCE_H_
 #define PARLAY_SEQUENCE_H_
 
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 
@@ -707,17 +708,17 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (i == n) return true;
     size_t start = granularity;
     size_t block_size = 2 * granularity;
-    bool matches = true;
+    std::atomic<bool> matches{true};    // several tasks may find a mismatch at the same time
     while (start < n) {
       size_t last = (std::min)(n, start + block_size);
       parallel_for(start, last, [&](size_t j) {
-        if (!(self[j] == other[j])) matches = false;
+        if (!(self[j] == other[j])) matches.store(false, std::memory_order_relaxed);
       }, granularity);
-      if (!matches) return false;
+      if (!matches.load(std::memory_order_relaxed)) return false;
       start += block_size;
       block_size *= 2;
     }
-    return matches;
+    return true;
   }
 };
 
-- 
2.43.0


From 610b454c9ae90617fe3dc2755bb591e726ef14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 44/50] fix: growing a sequence with an allocator that has its
 own construct method did not compile

---
 include/parlay/internal/sequence_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index 1a62843..d6697dd 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -576,8 +576,8 @@ struct alignas(uint64_t) sequence_base {
         }
         else {
           parallel_for(0, n, [&](size_t i){
-            std::allocator_traits<T_allocator_type>::construct(alloc, std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
-            std::allocator_traits<T_allocator_type>::destroy(alloc, std::addressof(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::construct(*this, std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::destroy(*this, std::addressof(current_buffer[i]));
           });
         }
 
-- 
2.43.0


From cd7cd7e0bf7bd0122bb5c15d1e97c9e824c64523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 45/50] fix: chars_from_file with a start past the end of the
 file and an end within it computed a negative length

---
 include/parlay/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index 82443d1..34081ee 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -41,7 +41,7 @@ inline chars chars_from_file(const std::string& filename,
   start = (std::min)(start,length);
   if (end == 0) end = length;
   else end = (std::min)(end,length);
-  std::streamsize n = end - start;
+  std::streamsize n = (std::max)(end - start, std::streamoff{0});
   file.seekg (start, std::ios::beg);
   auto chars = chars::uninitialized(static_cast<size_t>(n) + null_terminate);
   file.read (chars.data(), n);
-- 
2.43.0


From 1709cb44ca07bf7dc33df55922e19805eb6bd846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 46/50] fix: file_map of an empty file failed to map it

---
 include/parlay/internal/posix/file_map_impl_posix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/posix/file_map_impl_posix.h b/include/parlay/internal/posix/file_map_impl_posix.h
index a6c15e5..e9cef43 100644
--- a/include/parlay/internal/posix/file_map_impl_posix.h
+++ b/include/parlay/internal/posix/file_map_impl_posix.h
@@ -47,8 +47,12 @@ class file_map {
       assert(fstat_res != -1);
       assert(S_ISREG(sb.st_mode));
     
-      char *p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
-      assert(p != MAP_FAILED);
+      // An empty file can not be mapped
+      char *p = nullptr;
+      if (sb.st_size > 0) {
+        p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
+        assert(p != MAP_FAILED);
+      }
       [[maybe_unused]] int close_p = ::close(fd);
       assert(close_p != -1);
       
-- 
2.43.0


From 9a5adcb379cfafca50a476ac3cd3da2cc53154bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 47/50] fix: dereferencing a ThreadSpecific iterator reached by
 stepping back from end() crashed if its chunk did not exist yet

---
 include/parlay/thread_specific.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/thread_specific.h b/include/parlay/thread_specific.h
index 0215b12..5d9d36e 100644
--- a/include/parlay/thread_specific.h
+++ b/include/parlay/thread_specific.h
@@ -251,7 +251,7 @@ class ThreadSpecific {
     /* implicit */ iterator_t(const iterator_t<false>& other)  // cppcheck-suppress noExplicitConstructor    // NOLINT
         : chunk_id(other.chunk_id), position(other.position), parent(other.parent) { }
 
-    reference operator*() const { return parent->get_by_index_nocheck(chunk_id, position); }
+    reference operator*() const { return parent->get_by_index(chunk_id, position); }
 
     reference operator[](std::size_t p) const {
       auto tmp = *this;
-- 
2.43.0


From 503aa6b39faf584c8218a16223e2a75b92df9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 48/50] fix: find and remove of the hash map example missed
 keys behind deleted entries and raced with updates

---
 examples/hash_map.h | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/examples/hash_map.h b/examples/hash_map.h
index 48152e5..c7f7b1b 100644
--- a/examples/hash_map.h
+++ b/examples/hash_map.h
@@ -43,6 +43,23 @@ struct hash_map {
   };
   parlay::sequence<entry> H;
 
+  // Locks and returns the entry of k, or returns nullptr if k is not in the map.
+  // The entries that k's insertion skipped can hold other keys, deleted ones
+  // included, and while one is locked its key might be just about to be set.
+  entry* lock_entry(const K& k) {
+    index i = first_index(k);
+    while (true) {
+      state status = H[i].status;
+      if (status == empty) return nullptr;
+      if (status == locked) continue;
+      if (H[i].key == k) {
+        if (status == tomb) return nullptr;
+        if (H[i].status.compare_exchange_strong(status, locked)) return &H[i];
+      }
+      else i = next_index(i);
+    }
+  }
+
  public:
   hash_map(long size, Hash&& hash = {}, Equal&& equal = {}) 
     : m(100 + static_cast<index>(1.5 * size)),
@@ -81,27 +98,19 @@ struct hash_map {
   }
 
   std::optional<V> find(const K& k) {
-    index i = first_index(k);
-    while (true) {
-      if (H[i].status != full) return {};
-      if (H[i].key == k) return H[i].value;
-      i = next_index(i);
-    }
+    entry* e = lock_entry(k);
+    if (e == nullptr) return {};
+    std::optional<V> r = e->value;
+    e->status = full;
+    return r;
   }
 
   std::optional<V> remove(const K& k) {
-    index i = first_index(k);
-    while (true) {
-      if (H[i].status == empty || H[i].status == locked) return {};
-      if (H[i].key == k) {
-	state old = full;
-	if (H[i].status == full &&
-	    H[i].status.compare_exchange_strong(old, tomb)) 
-	  return std::move(H[i].value);
-	else return {};
-      }
-      i = next_index(i);
-    }
+    entry* e = lock_entry(k);
+    if (e == nullptr) return {};
+    std::optional<V> r = std::move(e->value);
+    e->status = tomb;
+    return r;
   }
 
   parlay::sequence<K> keys() {
-- 
2.43.0


From 6f09d53490eb28c8ec04ab00b4e0a663b15cad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 49/50] fix: delayed flatten of a block-iterable view read past
 its block offsets when no output block begins in the last input blocks

---
 include/parlay/internal/delayed/flatten.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index c2168cd..163ce1c 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -202,7 +202,8 @@ struct block_delayed_flatten_t :
         size_t out_block_id = std::distance(std::begin(out_block_offsets),
                                             std::lower_bound(std::begin(out_block_offsets), std::end(out_block_offsets), block_start));
 
-        size_t outer_idx = out_block_offsets[out_block_id];
+        // There might be no output block that begins in this or in a later input block
+        size_t outer_idx = (out_block_id < out_block_offsets.size()) ? out_block_offsets[out_block_id] : block_end;
         if (outer_idx < block_end) {
           auto outer_it = begin_block(base_view(), i);
           std::advance(outer_it, outer_idx - block_start);
-- 
2.43.0


From a23c0470b425fc21b7a3d404332eedb9eea0c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 50/50] Revert "fix: find and remove of the hash map example
 missed keys behind deleted entries and raced with updates"

This reverts commit 503aa6b39faf584c8218a16223e2a75b92df9cd5.
---
 examples/hash_map.h | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/examples/hash_map.h b/examples/hash_map.h
index c7f7b1b..48152e5 100644
--- a/examples/hash_map.h
+++ b/examples/hash_map.h
@@ -43,23 +43,6 @@ struct hash_map {
   };
   parlay::sequence<entry> H;
 
-  // Locks and returns the entry of k, or returns nullptr if k is not in the map.
-  // The entries that k's insertion skipped can hold other keys, deleted ones
-  // included, and while one is locked its key might be just about to be set.
-  entry* lock_entry(const K& k) {
-    index i = first_index(k);
-    while (true) {
-      state status = H[i].status;
-      if (status == empty) return nullptr;
-      if (status == locked) continue;
-      if (H[i].key == k) {
-        if (status == tomb) return nullptr;
-        if (H[i].status.compare_exchange_strong(status, locked)) return &H[i];
-      }
-      else i = next_index(i);
-    }
-  }
-
  public:
   hash_map(long size, Hash&& hash = {}, Equal&& equal = {}) 
     : m(100 + static_cast<index>(1.5 * size)),
@@ -98,19 +81,27 @@ struct hash_map {
   }
 
   std::optional<V> find(const K& k) {
-    entry* e = lock_entry(k);
-    if (e == nullptr) return {};
-    std::optional<V> r = e->value;
-    e->status = full;
-    return r;
+    index i = first_index(k);
+    while (true) {
+      if (H[i].status != full) return {};
+      if (H[i].key == k) return H[i].value;
+      i = next_index(i);
+    }
   }
 
   std::optional<V> remove(const K& k) {
-    entry* e = lock_entry(k);
-    if (e == nullptr) return {};
-    std::optional<V> r = std::move(e->value);
-    e->status = tomb;
-    return r;
+    index i = first_index(k);
+    while (true) {
+      if (H[i].status == empty || H[i].status == locked) return {};
+      if (H[i].key == k) {
+	state old = full;
+	if (H[i].status == full &&
+	    H[i].status.compare_exchange_strong(old, tomb)) 
+	  return std::move(H[i].value);
+	else return {};
+      }
+      i = next_index(i);
+    }
   }
 
   parlay::sequence<K> keys() {
-- 
2.43.0

