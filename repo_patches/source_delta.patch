From ae80d7ec5d29d9c3e15fbe1a1fb714e8b68109c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 01/75] fix: tm: Copy loadstore data from source to destination

The memcpy() in tm_vmem_tx_ldst() had source and destination exchanged,
and the addresses advanced by different amounts if the regions' alignment
within their pages differs.
---
 modules/tm/src/vmem_tx.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0575110..0c26e4c 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -323,13 +323,17 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
         size_t spage_tail = TM_BLOCK_SIZE - spage_head;
         size_t spage_diff = siz < spage_tail ? siz : spage_tail;
 
-        uint8_t* lmem = tm_page_buffer(lpage);
+        /* The regions' alignments might differ, so only copy bytes that
+         * are within the current page of both regions. */
+        size_t page_diff = lpage_diff < spage_diff ? lpage_diff : spage_diff;
+
+        const uint8_t* lmem = tm_page_buffer(lpage);
         uint8_t* smem = tm_page_buffer(spage);
-        memcpy(lmem + lpage_head, smem + spage_head, lpage_diff);
+        memcpy(smem + spage_head, lmem + lpage_head, page_diff);
 
-        laddr += lpage_diff;
-        saddr += spage_diff;
-        siz   -= lpage_diff;
+        laddr += page_diff;
+        saddr += page_diff;
+        siz   -= page_diff;
     }
 }
 
-- 
2.43.0


From b0df4cdaf92f2f0a5e9cd3952ce223cc7e2c8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 02/75] fix: tm: Keep stored values when privatizing memory

Privatizing memory that has been stored to within the same transaction
exposed the old memory content and lost the stored values on commit; a
roll-back even wrote them into memory. Exchange the page's buffer with
the memory when switching to write-through mode. Privatizing up to a
character searched bytes in front of the given address.
---
 modules/tm/src/page.c    |  4 ++--
 modules/tm/src/vmem_tx.c | 43 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 2841bd8..25e69bb 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -120,8 +120,8 @@ tm_page_ld_c(struct tm_page* page, unsigned long bits, int c, struct tm_vmem* vm
             *buf = *mem;
             page->buf_bits |= bit;
         }
-        if (page->buf_bits & bit) {
-            if (*mem == c) {
+        if (bits & bit) {
+            if (*mem == (uint8_t)c) {
                 break;
             }
         }
diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0c26e4c..5cac66a 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -337,6 +337,28 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+/* Switches a locked page to write-through mode. Privatized pages use
+ * write-through semantics, so that all stores are immediately visible
+ * in the region's memory. Values that have already been stored in the
+ * page's buffer are exchanged with the memory content; the latter is
+ * required for undo.
+ */
+static void
+set_page_write_through(struct tm_page* page, struct tm_vmem* vmem,
+                       struct picotm_error* error)
+{
+    if (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) {
+        return;
+    }
+    if (tm_page_has_wrlocked_frame(page)) {
+        tm_page_xchg(page, copy_all_bits(), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+    page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+}
+
 static void
 prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
@@ -357,13 +379,16 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
         if (!tm_page_is_complete(page)) {
             tm_page_ld(page, copy_bits(addr, siz), vmem, error);
             if (picotm_error_is_set(error)) {
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -375,13 +400,16 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
         if (!tm_page_is_complete(page)) {
             tm_page_ld(page, copy_bits(addr, siz), vmem, error);
             if (picotm_error_is_set(error)) {
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (!flags) {
 
@@ -458,13 +486,15 @@ prepare_page_privatize_c(struct tm_page* page,
                 return false;
             }
         }
-
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
                                error);
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -476,12 +506,15 @@ prepare_page_privatize_c(struct tm_page* page,
                 return false;
             }
         }
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
                                error);
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (!flags) {
 
-- 
2.43.0


From 67f7392b7bcc945a73eb8719e645bee496a44ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 03/75] fix: tm: Restore discarded memory during roll-back

Memory that has been privatized and modified before being discarded,
e.g. by free_tx(), kept the transaction's values after a roll-back.
---
 modules/tm/src/vmem_tx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 5cac66a..4c66e1a 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -631,8 +631,7 @@ undo_page(struct tm_page* page, struct tm_vmem* vmem,
           struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
+        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
         tm_page_st(page, copy_all_bits(), vmem, error);
         if (picotm_error_is_set(error)) {
             return 0;
-- 
2.43.0


From 8fb6f8330a9af57501ec7ec626504847b42c01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 04/75] fix: arithmetic: Detect overflow when subtracting the
 minimum from zero

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 8b753dc..db5a8c3 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -267,12 +267,8 @@ __picotm_arithmetic_error_underflow_tx(void);
                 __picotm_arithmetic_error_underflow_tx();                   \
             }                                                               \
         } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
+            if (__add(maxval, rhs) < lhs) {                                 \
+                __picotm_arithmetic_error_overflow_tx();                    \
             }                                                               \
         }                                                                   \
         return __sub(lhs, rhs);                                             \
-- 
2.43.0


From 11bd31336d211ef4448f0061087608d5334eb099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 05/75] fix: arithmetic: Correct range checks for negative
 factors

---
 .../arithmetic/include/picotm/picotm-arithmetic.h  | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index db5a8c3..885c236 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -422,17 +422,13 @@ __picotm_arithmetic_error_underflow_tx(void);
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             }                                                               \
-        } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return rhs;                                                 \
-            } else if (lhs > idtval) {                                      \
-                if (__div(-maxval, -rhs) < -lhs) {                          \
+        } else /* (rhs < asbval) */ {                                       \
+            if (lhs > asbval) {                                             \
+                if (__div(minval, lhs) > rhs) {                             \
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
-            } else /* (lhs < idtval) */ {                                   \
-                if (lhs == minval) {                                        \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                } else if (__div(maxval, rhs) < lhs) {                      \
+            } else /* (lhs < asbval) */ {                                   \
+                if (__div(maxval, rhs) > lhs) {                             \
                     __picotm_arithmetic_error_overflow_tx();                \
                 }                                                           \
             }                                                               \
-- 
2.43.0


From 751c5913ad781a731cd06091266c46bcae4ea6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 06/75] fix: arithmetic: Check the rounded result of
 floating-point operations

---
 .../include/picotm/picotm-arithmetic.h        | 71 +++++++------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 885c236..43b6f61 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -205,20 +205,15 @@ __picotm_arithmetic_error_underflow_tx(void);
         static const __type idtval =  (__idt);                              \
         if (rhs == idtval) {                                                \
             return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (__sub(maxval, rhs) < lhs) {                                 \
-                __picotm_arithmetic_error_overflow_tx();                    \
-            }                                                               \
-        } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return rhs;                                                 \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__sub(minval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __add(lhs, rhs);                                             \
+        /* An overflow of the type's range rounds to infinity. */           \
+        const __type res = __add(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -348,20 +343,15 @@ __picotm_arithmetic_error_underflow_tx(void);
         static const __type idtval =  (__idt);                              \
         if (rhs == idtval) {                                                \
             return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (__add(minval, rhs) > lhs) {                                 \
-                __picotm_arithmetic_error_underflow_tx();                   \
-            }                                                               \
-        } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __sub(lhs, rhs);                                             \
+        /* An overflow of the type's range rounds to infinity. */           \
+        const __type res = __sub(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -520,28 +510,15 @@ __picotm_arithmetic_error_underflow_tx(void);
             return asbval;                                                  \
         } else if (rhs == idtval) {                                         \
             return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (lhs > asbval) {                                             \
-                if (__div(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            } else /* (lhs < absval) */ {                                   \
-                if (__div(minval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
-        } else /* (rhs < -idtval) */ {                                      \
-            if (lhs > asbval) {                                             \
-                if (__div(minval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            } else /* (lhs < absval) */ {                                   \
-                if (__div(maxval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __mul(lhs, rhs);                                             \
+        /* An overflow of the type's range rounds to infinity. */           \
+        const __type res = __mul(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
-- 
2.43.0


From 910eb79fbd5500ed2e572e91c96fe7d4c2186226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 07/75] fix: Do not declare functions with call-backs as leaf
 functions

---
 include/picotm/compiler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/picotm/compiler.h b/include/picotm/compiler.h
index 632934c..b827886 100644
--- a/include/picotm/compiler.h
+++ b/include/picotm/compiler.h
@@ -70,9 +70,13 @@
  * \ingroup group_core
  * \def PICOTM_NOTHROW
  * Exported function does not throw exceptions.
+ *
+ * Note that `__THROW` also declares C functions as leaf functions. Picotm's
+ * functions might invoke call-backs or jump to the transaction's beginning,
+ * so we have to use `__THROWNL`.
  */
-#ifdef __THROW
-    #define PICOTM_NOTHROW  __THROW
+#ifdef __THROWNL
+    #define PICOTM_NOTHROW  __THROWNL
 #else
     #define PICOTM_NOTHROW
 #endif
-- 
2.43.0


From 077268a27cac3286e52b8a8a7cce2e61ae69c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 08/75] fix: txlib: Return correct bounds from multisets

---
 modules/txlib/src/txmultiset_state.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/modules/txlib/src/txmultiset_state.c b/modules/txlib/src/txmultiset_state.c
index e732820..61be9a1 100644
--- a/modules/txlib/src/txmultiset_state.c
+++ b/modules/txlib/src/txmultiset_state.c
@@ -163,7 +163,7 @@ txmultiset_state_lower_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
 
         entry = pos;
@@ -186,7 +186,7 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
         return entry;
     }
 
-    /* iterate to the last entry with the key */
+    /* iterate to the first entry with a larger key */
 
     struct txmultiset_entry* pos = txmultiset_entry_next(entry);
 
@@ -194,13 +194,11 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
-
-        entry = pos;
     }
 
-    return entry;
+    return pos;
 }
 
 size_t
-- 
2.43.0


From 202d7a17ce1834302cd1103c5949386a3ff8078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 09/75] fix: txlib: Move smaller entries when inserting
 duplicates into multisets

---
 modules/txlib/src/txmultiset_entry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/txlib/src/txmultiset_entry.c b/modules/txlib/src/txmultiset_entry.c
index f23cdcf..785abe0 100644
--- a/modules/txlib/src/txmultiset_entry.c
+++ b/modules/txlib/src/txmultiset_entry.c
@@ -212,6 +212,12 @@ insert_at(struct txmultiset_entry* entry, struct txmultiset_entry* position)
         position->internal.parent->internal.ge = entry;
     }
 
+    /* 'entry' takes over all smaller entries from 'position' */
+    if (entry->internal.lt) {
+        entry->internal.lt->internal.parent = entry;
+        position->internal.lt = NULL;
+    }
+
     position->internal.parent = entry;
 }
 
-- 
2.43.0


From 998a799d8eef7c7e3c6c646fcd8487ae4eb90956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 10/75] fix: libm: Clear floating-point exceptions before math
 functions

The function matherr_save_and_clear() returned right after saving the
floating-point exceptions. Exceptions that were already pending were
then reported as errors of the following math function.
---
 modules/libm/src/matherr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index a3a0508..39d789c 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -43,7 +43,7 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                return;
+                break;
             }
             picotm_recover_from_error(&error);
         } while (true);
-- 
2.43.0


From d9bc475672031aca25c70c7dcb972246f08641e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 11/75] fix: rwlock: Do not wait with indices that don't fit
 into the lock

A picotm_rwlock stores the index of its first waiter in four bits. With
more than 15 threads, larger indices were truncated, which corrupted the
list of waiters or let an assertion fail.
---
 src/picotm-lib-rwlock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/picotm-lib-rwlock.c b/src/picotm-lib-rwlock.c
index 75be7b1..2813844 100644
--- a/src/picotm-lib-rwlock.c
+++ b/src/picotm-lib-rwlock.c
@@ -153,6 +153,16 @@ try_lock_or_wait(struct picotm_rwlock* self,
 
             waiter = picotm_lock_owner_get_thread_local_instance();
 
+            unsigned long index = picotm_lock_owner_get_index(waiter);
+
+            if (rw_index(rw_index_bits(index)) != index) {
+                /* The lock cannot store this waiter's index, so we
+                 * cannot enter the lock's waiter list. We signal a
+                 * conflict without waiting. */
+                picotm_error_set_conflicting(error, self);
+                return;
+            }
+
             struct picotm_lock_manager* lmanager =
                 picotm_lock_owner_get_lock_manager(waiter);
 
-- 
2.43.0


From f5db67f9bb406842f16eef98139528fdcf52cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 12/75] fix: Run transactions irrevocably beyond the retry
 limit

A transaction became irrevocable only when its number of retries was
equal to the limit. If the recovery code restarted it from there, it
became revocable again, and could be restarted for conflicts forever.
---
 src/picotm_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picotm_tx.c b/src/picotm_tx.c
index 479202c..50de527 100644
--- a/src/picotm_tx.c
+++ b/src/picotm_tx.c
@@ -187,7 +187,7 @@ picotm_tx_begin(struct picotm_tx* self, enum picotm_tx_mode mode,
 
     unsigned long nretries = is_retry ? self->nretries + 1 : 0;
 
-    if (nretries == TX_NRETRIES_LIMIT) {
+    if (nretries >= TX_NRETRIES_LIMIT) {
         mode = TX_MODE_IRREVOCABLE;
     }
 
-- 
2.43.0


From caf1f15053326795f9a89a9a8a927bfce361db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 13/75] fix: treemap: Do not grow the tree for keys that use
 all bits

The shift for computing a key's prefix exceeded the key's width if the
tree already covers all of the key's bits.
---
 src/picotm-lib-treemap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/picotm-lib-treemap.c b/src/picotm-lib-treemap.c
index 16318d5..61077d9 100644
--- a/src/picotm-lib-treemap.c
+++ b/src/picotm-lib-treemap.c
@@ -225,7 +225,12 @@ static unsigned long long
 key_depth_prefix(unsigned long long key, unsigned long depth,
                  unsigned long level_nbits)
 {
-    return key >> (depth * level_nbits);
+    unsigned long nbits = depth * level_nbits;
+
+    if (nbits >= sizeof(key) * CHAR_BIT) {
+        return 0; /* The tree already covers all bits of the key. */
+    }
+    return key >> nbits;
 }
 
 static unsigned long
-- 
2.43.0


From 58c56af4e2a9747981a80eb65b096f46f0438a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 14/75] fix: libc: Copy up to and including the character in
 memccpy_tx()

The search did not stop at the character, did not copy it, accessed
memory behind it and did not convert 'c' to an unsigned character.
---
 modules/libc/src/string.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 54a854a..9c9320f 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -38,29 +38,18 @@ memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
-    dest = NULL; /* Return NULL by default */
+    for (; n; --n, ++dest8, ++src8) {
 
-    while (n) {
-
-        uint8_t buf[32];
+        uint8_t byte;
 
-        size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
-
-        load_tx(src8, buf, siz);
+        load_tx(src8, &byte, sizeof(byte));
+        store_tx(dest8, &byte, sizeof(byte));
 
-        for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == c) {
-                dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i; /* Stop looping */
-            }
+        if (byte == (uint8_t)c) {
+            return dest8 + 1; /* Return the location after 'c' */
         }
-
-        store_tx(dest8, buf, siz);
-        dest8 += siz;
-        src8 += siz;
-        n -= siz;
     }
-    return dest;
+    return NULL;
 }
 #endif
 
-- 
2.43.0


From 0d822cd5f849c155f6e17cb64eaae00c174da6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 15/75] fix: libc: Handle overlapping regions in memmove_tx()

---
 modules/libc/src/string.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 9c9320f..8a0830e 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -93,17 +93,24 @@ memmove_tx(void* dest, const void* src, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
+    /* If the destination begins within the source, copying has to
+     * start at the end of the region. */
+    bool backwards = (src8 < dest8) && (dest8 < src8 + n);
+
     while (n) {
 
         uint8_t buf[32];
 
         size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
+        size_t off = backwards ? n - siz : 0;
 
-        load_tx(src8, buf, siz);
-        store_tx(dest8, buf, siz);
+        load_tx(src8 + off, buf, siz);
+        store_tx(dest8 + off, buf, siz);
 
-        dest8 += siz;
-        src8 += siz;
+        if (!backwards) {
+            dest8 += siz;
+            src8 += siz;
+        }
         n -= siz;
     }
     return dest;
-- 
2.43.0


From a5f36f163df7ed3baca4a3f7125bec7a837e0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 16/75] fix: libc: Terminate and return correctly in
 st{p,pn}cpy_tx()

Both functions returned the destination instead of its end, stpcpy_tx()
did not copy the terminating character and stpncpy_tx() accessed memory
behind the source's limit.
---
 modules/libc/src/string.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 8a0830e..920a35a 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -162,14 +162,34 @@ rawmemchr_tx(const void* s, int c)
  * String functions
  */
 
+/* Privatizes a string with at most 'n' characters for loading. Returns
+ * the string's length or 'n' if there's no terminating character. Nothing
+ * is accessed behind the string's end.
+ */
+static size_t
+privatize_str_tx(const char* s, size_t n)
+{
+    size_t len = 0;
+
+    for (; len < n; ++len) {
+        privatize_tx(s + len, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (s[len] == '\0') {
+            break;
+        }
+    }
+
+    return len;
+}
+
 #if defined(PICOTM_LIBC_HAVE_STPCPY) && PICOTM_LIBC_HAVE_STPCPY
 PICOTM_EXPORT
 char*
 stpcpy_tx(char* restrict dest, const char* restrict src)
 {
     privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    store_tx(dest, src, strlen(src));
-    return dest;
+    size_t len = strlen(src);
+    store_tx(dest, src, len + 1);
+    return dest + len;
 }
 #endif
 
@@ -178,15 +198,10 @@ PICOTM_EXPORT
 char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-        memset_tx(dest + len, 0, n - len);
-    } else {
-        store_tx(dest, src, n);
-    }
-    return dest;
+    size_t len = privatize_str_tx(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, '\0', n - len);
+    return dest + len;
 }
 #endif
 
-- 
2.43.0


From d9e0919bb2d91e3faddb1c44e4e50a166717bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 17/75] fix: libc: Fill the destination with zeros in
 strncpy_tx()

Do also not access memory behind the source's limit.
---
 modules/libc/src/string.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 920a35a..48ab70a 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -345,13 +345,9 @@ PICOTM_EXPORT
 char*
 strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-    } else {
-        store_tx(dest, src, n);
-    }
+    size_t len = privatize_str_tx(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, '\0', n - len);
     return dest;
 }
 #endif
-- 
2.43.0


From a23cf97c22f155a4594cd5f70d6d43295537d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 18/75] fix: libc: Stop at the string's end in strchr_tx()

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 48ab70a..c5ce3c6 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -224,7 +224,7 @@ PICOTM_EXPORT
 char*
 strchr_tx(const char* s, int c)
 {
-    privatize_c_tx(s, c, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strchr_tm(s, c);
 }
 #endif
-- 
2.43.0


From 828a8cf3d243632faf51cf0662458987bb38e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 19/75] fix: libc: Privatize both arguments of strcspn_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index c5ce3c6..81e244a 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -268,6 +268,7 @@ size_t
 strcspn_tx(const char* s, const char* reject)
 {
     privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(reject, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strcspn(s, reject);
 }
 #endif
-- 
2.43.0


From 61b4b337991e6024fcce9b28e7f7d31cba412256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 20/75] fix: libc: Respect the limit of
 strn{cat,cmp,dup,len}_tx()

The functions' string arguments don't have to be terminated if they are
at least as long as the given limit.
---
 modules/libc/src/string.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 81e244a..624596d 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -317,15 +317,10 @@ char*
 strncat_tx(char* restrict dest, const char* restrict src, size_t n)
 {
     privatize_c_tx(dest, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     size_t dlen = strlen(dest);
-    size_t slen = strlen(src) + 1;
-    if (n < slen) {
-        store_tx(dest + dlen, src, n);
-        memset_tx(dest + dlen + n, '\0', 1);
-    } else {
-        store_tx(dest + dlen, src, slen);
-    }
+    size_t slen = privatize_str_tx(src, n);
+    store_tx(dest + dlen, src, slen);
+    memset_tx(dest + dlen + slen, '\0', 1);
     return dest;
 }
 #endif
@@ -335,8 +330,8 @@ PICOTM_EXPORT
 int
 strncmp_tx(const char* s1, const char* s2, size_t n)
 {
-    privatize_c_tx(s1, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(s2, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_str_tx(s1, n);
+    privatize_str_tx(s2, n);
     return strncmp(s1, s2, n);
 }
 #endif
@@ -358,7 +353,7 @@ PICOTM_EXPORT
 char*
 strndup_tx(const char* s, size_t n)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_str_tx(s, n);
     return strndup_tm(s, n);
 }
 #endif
@@ -368,8 +363,7 @@ PICOTM_EXPORT
 size_t
 strnlen_tx(const char* s, size_t maxlen)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    return strnlen(s, maxlen);
+    return privatize_str_tx(s, maxlen);
 }
 #endif
 
-- 
2.43.0


From e9a0211612e2a85dbb780cf778153495bee23117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 21/75] fix: libc: Terminate strings at the limit in
 strndup_tm()

If the string exceeded the limit, its duplicate was terminated one
character too late and outside of the allocated memory.
---
 modules/libc/src/string-tm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modules/libc/src/string-tm.c b/modules/libc/src/string-tm.c
index b93d483..cb83b00 100644
--- a/modules/libc/src/string-tm.c
+++ b/modules/libc/src/string-tm.c
@@ -357,16 +357,14 @@ strndup_tm(const char* s, size_t n)
         picotm_recover_from_error(&error);
     } while (true);
 
-    size_t len = strlen(s) + sizeof(*s);
-    if (n < len) {
-        len = n + sizeof(*s);
-    }
+    size_t len = strnlen(s, n);
 
     void* mem;
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len, &error);
+        allocator_module_posix_memalign(&mem, 2 * sizeof(void*),
+                                        len + sizeof(*s), &error);
         if (!picotm_error_is_set(&error)) {
             break;
         }
@@ -374,9 +372,7 @@ strndup_tm(const char* s, size_t n)
     } while (true);
 
     char* s2 = memcpy(mem, s, len);
-    if (n < len) {
-        s2[n + 1] = '\0';
-    }
+    s2[len] = '\0';
     return s2;
 }
 #endif
-- 
2.43.0


From 909b59368be9d5e78ecc0ed520b2414831da1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 22/75] fix: libc: Save the position and terminate tokens in
 strtok_r_tx()

The function stored the address of a local variable as the position,
did not support continuing with a NULL string and did not acquire the
string for storing.
---
 modules/libc/src/string.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 624596d..224d452 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -416,12 +416,17 @@ char*
 strtok_r_tx(char* restrict str, const char* restrict delim,
             char** restrict saveptr)
 {
-    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    if (!str) {
+        str = load_ptr_tx(saveptr); /* Continue with the remaining string. */
+    }
+
+    /* strtok_r() terminates the token within the string. */
+    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOADSTORE);
     privatize_c_tx(delim, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
-    char* ptr = load_ptr_tx(saveptr);
+    char* ptr = str;
     char* tok = strtok_r(str, delim, &ptr);
-    store_ptr_tx(saveptr, &ptr);
+    store_ptr_tx(saveptr, ptr);
 
     return tok;
 }
-- 
2.43.0


From 7466bd8b57694249fba3ed96606176efd6520618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 23/75] fix: libc: Declare strcat_tx(), strcpy_tx() and
 strcpy_tm()

---
 modules/libc/include/picotm/config/picotm-libc-config.h.in | 4 ++++
 modules/libc/include/picotm/string.h                       | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/libc/include/picotm/config/picotm-libc-config.h.in b/modules/libc/include/picotm/config/picotm-libc-config.h.in
index fc4c6d2..d897500 100644
--- a/modules/libc/include/picotm/config/picotm-libc-config.h.in
+++ b/modules/libc/include/picotm/config/picotm-libc-config.h.in
@@ -540,6 +540,10 @@
 #undef PICOTM_LIBC_HAVE_STRCOLL_L
 #endif
 
+#ifndef PICOTM_LIBC_HAVE_STRCPY
+#undef PICOTM_LIBC_HAVE_STRCPY
+#endif
+
 #ifndef PICOTM_LIBC_HAVE_STRCMP
 #undef PICOTM_LIBC_HAVE_STRCMP
 #endif
diff --git a/modules/libc/include/picotm/string.h b/modules/libc/include/picotm/string.h
index 4c01ad1..3b21988 100644
--- a/modules/libc/include/picotm/string.h
+++ b/modules/libc/include/picotm/string.h
@@ -181,7 +181,7 @@ char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n);
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_STPCAT) && PICOTM_LIBC_HAVE_STPCAT || \
+#if defined(PICOTM_LIBC_HAVE_STRCAT) && PICOTM_LIBC_HAVE_STRCAT || \
     defined(__PICOTM_DOXYGEN)
 PICOTM_NOTHROW
 /**
-- 
2.43.0


From ae0705ff143d8092d6408bed4adc1540c69fff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 24/75] fix: libm: Declare asinl_tx() and memory functions for
 libm types

---
 modules/libm/include/picotm/complex.h                | 12 ++++++------
 .../include/picotm/config/picotm-libm-config.h.in    |  4 ++--
 modules/libm/include/picotm/math.h                   |  8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/modules/libm/include/picotm/complex.h b/modules/libm/include/picotm/complex.h
index 5332a36..9bed9bf 100644
--- a/modules/libm/include/picotm/complex.h
+++ b/modules/libm/include/picotm/complex.h
@@ -34,8 +34,8 @@ PICOTM_BEGIN_DECLS
  * \brief Transactional wrappers for interfaces of <complex.h>.
  */
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_DOUBLE__COMPLEX) && \
-            PICOTM_LIBC_HAVE_TYPE_DOUBLE__COMPLEX || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_DOUBLE__COMPLEX) && \
+            PICOTM_LIBM_HAVE_TYPE_DOUBLE__COMPLEX || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
@@ -45,8 +45,8 @@ PICOTM_TM_PRIVATIZE_TX(cdouble, double _Complex);
 /** \} */
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_FLOAT__COMPLEX) && \
-            PICOTM_LIBC_HAVE_TYPE_FLOAT__COMPLEX || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_FLOAT__COMPLEX) && \
+            PICOTM_LIBM_HAVE_TYPE_FLOAT__COMPLEX || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
@@ -56,8 +56,8 @@ PICOTM_TM_PRIVATIZE_TX(cfloat, float _Complex);
 /** \} */
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_LONG_DOUBLE__COMPLEX) && \
-            PICOTM_LIBC_HAVE_TYPE_LONG_DOUBLE__COMPLEX || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_LONG_DOUBLE__COMPLEX) && \
+            PICOTM_LIBM_HAVE_TYPE_LONG_DOUBLE__COMPLEX || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
diff --git a/modules/libm/include/picotm/config/picotm-libm-config.h.in b/modules/libm/include/picotm/config/picotm-libm-config.h.in
index b9a6e1f..3d94c12 100644
--- a/modules/libm/include/picotm/config/picotm-libm-config.h.in
+++ b/modules/libm/include/picotm/config/picotm-libm-config.h.in
@@ -92,8 +92,8 @@
 #undef PICOTM_LIBM_HAVE_ASINHL
 #endif
 
-#ifndef PICOTM_LIBM_HAVE_ASINH
-#undef PICOTM_LIBM_HAVE_ASINH
+#ifndef PICOTM_LIBM_HAVE_ASINL
+#undef PICOTM_LIBM_HAVE_ASINL
 #endif
 
 #ifndef PICOTM_LIBM_HAVE_ATAN
diff --git a/modules/libm/include/picotm/math.h b/modules/libm/include/picotm/math.h
index fff70e8..386f315 100644
--- a/modules/libm/include/picotm/math.h
+++ b/modules/libm/include/picotm/math.h
@@ -34,8 +34,8 @@ PICOTM_BEGIN_DECLS
  * \brief Transactional wrappers for interfaces of <math.h>.
  */
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_DOUBLE_T) && \
-            PICOTM_LIBC_HAVE_TYPE_DOUBLE_T || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_DOUBLE_T) && \
+            PICOTM_LIBM_HAVE_TYPE_DOUBLE_T || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
@@ -45,8 +45,8 @@ PICOTM_TM_PRIVATIZE_TX(double_t, double_t);
 /** \} */
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_FLOAT_T) && \
-            PICOTM_LIBC_HAVE_TYPE_FLOAT_T || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_FLOAT_T) && \
+            PICOTM_LIBM_HAVE_TYPE_FLOAT_T || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
-- 
2.43.0


From 56c9e18d7c546dfeb05f33a88d7c72f3be074a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 25/75] fix: libc: Do not access memory behind the found
 character in memchr_tx()

---
 modules/libc/src/string.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 224d452..1eb3695 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -58,8 +58,16 @@ PICOTM_EXPORT
 void*
 memchr_tx(const void* s, int c, size_t n)
 {
-    privatize_tx(s, n, PICOTM_TM_PRIVATIZE_LOAD);
-    return memchr_tm(s, c, n);
+    const uint8_t* s8 = s;
+
+    /* The region ends at the character if it's shorter than 'n' bytes. */
+    for (; n; --n, ++s8) {
+        privatize_tx(s8, sizeof(*s8), PICOTM_TM_PRIVATIZE_LOAD);
+        if (*s8 == (uint8_t)c) {
+            return (void*)s8;
+        }
+    }
+    return NULL;
 }
 #endif
 
-- 
2.43.0


From b6408110e042107360fd11dd6ee79cd8a97766bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 26/75] fix: libc: Privatize the result pointer in
 posix_memalign_tx()

The function privatized the memory at the pointer's old value.
---
 modules/libc/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 18949e6..018a3f5 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -166,7 +166,7 @@ PICOTM_EXPORT
 int
 posix_memalign_tx(void** memptr, size_t alignment, size_t size)
 {
-    privatize_tx(*memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
     return posix_memalign_tm(memptr, alignment, size);
 }
 #endif
-- 
2.43.0


From 97c2dbfddd713c9a5765e989c1d9f80349f752d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 27/75] fix: libc: Don't truncate allocation sizes

The rounding mask's type truncated sizes to 32 bits, so that blocks of
4 GiB or more were smaller than requested. Sizes close to the maximum
overflowed to zero.
---
 modules/libc/src/allocator/allocator_tx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/allocator/allocator_tx.c b/modules/libc/src/allocator/allocator_tx.c
index fc9c5c8..a4367bd 100644
--- a/modules/libc/src/allocator/allocator_tx.c
+++ b/modules/libc/src/allocator/allocator_tx.c
@@ -22,6 +22,7 @@
 #include "picotm/picotm-error.h"
 #include <assert.h>
 #include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "allocator_log.h"
 
@@ -31,7 +32,11 @@
 static size_t
 rnd2wb(size_t size)
 {
-    const unsigned int mask = sizeof(void*) - 1;
+    const size_t mask = sizeof(void*) - 1;
+
+    if (size > SIZE_MAX - mask) {
+        return size; /* The allocator reports the error. */
+    }
 
     return (size + mask) & ~mask;
 }
-- 
2.43.0


From d71494261409d0e3bdbb1841a2cc8cff547d5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 28/75] fix: libc: Detect overflows in calloc_tx()

---
 modules/libc/src/stdlib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 018a3f5..f071aec 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -22,6 +22,7 @@
 #include "picotm/picotm.h"
 #include "picotm/picotm-module.h"
 #include <errno.h>
+#include <stdint.h>
 /* We test and include <malloc_np.h> first, because FreeBSD provides
  * <malloc_np.h>, but fails with an error if <malloc.h> is included.
  */
@@ -70,6 +71,10 @@ calloc_tx(size_t nmemb, size_t size)
         picotm_recover_from_error(&error);
     } while (true);
 
+    while (size && nmemb > SIZE_MAX / size) {
+        picotm_recover_from_errno(ENOMEM);
+    }
+
     size_t alloc_size = nmemb * size;
 
     do {
-- 
2.43.0


From c7117cd8d0d5f9b42b9664726bfbfc066348b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 29/75] fix: libc: Copy the transaction's content in
 realloc_tx()

The old block was discarded before copying its content, so the new block
did not contain the values stored by the transaction.
---
 modules/libc/src/stdlib.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index f071aec..937937e 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -204,7 +204,8 @@ realloc_tx(void* ptr, size_t size)
 {
     size_t usiz = malloc_usable_size(ptr);
     if (usiz) {
-        privatize_tx(ptr, usiz, 0); /* discard memory region */
+        /* Acquire the content, including earlier stores. */
+        privatize_tx(ptr, usiz, PICOTM_TM_PRIVATIZE_LOADSTORE);
     }
 
     do {
@@ -240,6 +241,10 @@ realloc_tx(void* ptr, size_t size)
         memcpy(mem, ptr, size < usiz ? size : usiz);
     }
 
+    if (usiz) {
+        privatize_tx(ptr, usiz, 0); /* discard memory region */
+    }
+
     if (ptr) {
         do {
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-- 
2.43.0


From 1b347841d14002019b4e50a1650029b442abc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 30/75] fix: libc: Save errno in setlocale_tm() and
 posix_memalign_tm()

Both functions might modify errno, which has to be restored if the
transaction rolls back.
---
 modules/libc/src/locale-tm.c | 9 +++++++++
 modules/libc/src/stdlib-tm.c | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/modules/libc/src/locale-tm.c b/modules/libc/src/locale-tm.c
index 18d9dd8..f29d30b 100644
--- a/modules/libc/src/locale-tm.c
+++ b/modules/libc/src/locale-tm.c
@@ -54,6 +54,15 @@ PICOTM_EXPORT
 char*
 setlocale_tm(int category, const char* locale)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         char* res = locale_module_setlocale(category, locale, &error);
diff --git a/modules/libc/src/stdlib-tm.c b/modules/libc/src/stdlib-tm.c
index 0dfeffc..73b0b0c 100644
--- a/modules/libc/src/stdlib-tm.c
+++ b/modules/libc/src/stdlib-tm.c
@@ -111,6 +111,15 @@ PICOTM_EXPORT
 int
 posix_memalign_tm(void** memptr, size_t alignment, size_t size)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = allocator_module_posix_memalign(memptr, alignment, size,
-- 
2.43.0


From d4075851cf34704762d94659b492184869feae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 31/75] fix: libm: Restore errno after successful math
 functions

Errno was set to zero for detecting errors and remained zero after the
function succeeded.
---
 modules/libm/src/matherr.c | 9 +++++++--
 modules/libm/src/matherr.h | 9 +++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index 39d789c..b896921 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -31,9 +31,11 @@
 #pragma STDC FENV_ACCESS ON
 #endif
 
-void
+int
 matherr_save_and_clear(int except)
 {
+    int saved_errno = errno;
+
     if (math_errhandling & MATH_ERRNO) {
         picotm_libc_save_errno();
         errno = 0;
@@ -49,15 +51,18 @@ matherr_save_and_clear(int except)
         } while (true);
         feclearexcept(except);
     }
+
+    return saved_errno;
 }
 
 void
-matherr_test_and_resolve(int except)
+matherr_test_and_resolve(int except, int saved_errno)
 {
     if (math_errhandling & MATH_ERRNO) {
         if (errno) {
             picotm_recover_from_errno(errno);
         }
+        errno = saved_errno; /* Math functions never clear errno. */
     }
     if (math_errhandling & MATH_ERREXCEPT) {
         int set_except = fetestexcept(except);
diff --git a/modules/libm/src/matherr.h b/modules/libm/src/matherr.h
index d0dd787..6c0f5fc 100644
--- a/modules/libm/src/matherr.h
+++ b/modules/libm/src/matherr.h
@@ -31,12 +31,13 @@
  * Wraps math functions in error-handling helpers.
  */
 #define MATHERR(type_, res_, func_ , except_)   \
-    matherr_save_and_clear((except_));          \
+    int saved_errno_ =                          \
+        matherr_save_and_clear((except_));      \
     type_ res_ = (func_);                       \
-    matherr_test_and_resolve((except_));
+    matherr_test_and_resolve((except_), saved_errno_);
 
-void
+int
 matherr_save_and_clear(int except);
 
 void
-matherr_test_and_resolve(int except);
+matherr_test_and_resolve(int except, int saved_errno);
-- 
2.43.0


From 716283609b17281b1a77cde37d9fc397ca0938f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 32/75] fix: libc: Privatize the buffer and arguments of
 {v,}snprintf_tx() exactly

The functions privatized the output buffer up to the character with the
buffer size's value instead of the buffer, mistook arguments before a
string for the string, and refused flags, width, precision and several
conversion specifiers.
---
 modules/libc/src/stdio.c | 273 +++++++++++++++++++++++++++------------
 1 file changed, 193 insertions(+), 80 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 3796e4c..f57645f 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -23,7 +23,12 @@
 #include "picotm/picotm-tm.h"
 #include "picotm/stdio-tm.h"
 #include <errno.h>
+#include <stdbool.h>
+#include <stddef.h>
+#include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
+#include <wchar.h>
 #include "error/module.h"
 
 #if defined(PICOTM_LIBC_HAVE_SNPRINTF) && PICOTM_LIBC_HAVE_SNPRINTF
@@ -56,112 +61,219 @@ sscanf_tx(const char* s, const char* format, ...)
 }
 #endif
 
+enum length_modifier {
+    LENGTH_NONE,
+    LENGTH_HH,
+    LENGTH_H,
+    LENGTH_L,
+    LENGTH_LL,
+    LENGTH_J,
+    LENGTH_Z,
+    LENGTH_T,
+    LENGTH_LONG_DOUBLE
+};
+
+/* Returns the position after the length modifier, if there is one. */
+static const char*
+parse_length_modifier(const char* pos, enum length_modifier* length)
+{
+    switch (*pos) {
+        case 'h':
+            *length = pos[1] == 'h' ? LENGTH_HH : LENGTH_H;
+            return pos + (pos[1] == 'h' ? 2 : 1);
+        case 'l':
+            *length = pos[1] == 'l' ? LENGTH_LL : LENGTH_L;
+            return pos + (pos[1] == 'l' ? 2 : 1);
+        case 'j':
+            *length = LENGTH_J;
+            return pos + 1;
+        case 'z':
+            *length = LENGTH_Z;
+            return pos + 1;
+        case 't':
+            *length = LENGTH_T;
+            return pos + 1;
+        case 'L':
+            *length = LENGTH_LONG_DOUBLE;
+            return pos + 1;
+        default:
+            *length = LENGTH_NONE;
+            return pos;
+    }
+}
+
+/* Returns the size of an integer with the given length modifier, or 0
+ * if there's no such type. */
+static size_t
+integer_size(enum length_modifier length)
+{
+    switch (length) {
+        case LENGTH_NONE:
+            return sizeof(int);
+        case LENGTH_HH:
+            return sizeof(char);
+        case LENGTH_H:
+            return sizeof(short);
+        case LENGTH_L:
+            return sizeof(long);
+        case LENGTH_LL:
+            return sizeof(long long);
+        case LENGTH_J:
+            return sizeof(intmax_t);
+        case LENGTH_Z:
+            return sizeof(size_t);
+        case LENGTH_T:
+            return sizeof(ptrdiff_t);
+        default:
+            return 0;
+    }
+}
+
+/* Privatizes a string argument. With a precision, the string contains at
+ * most this many characters and might not be terminated. */
 static void
-privatize_printf_args(const char* format, va_list arg)
+privatize_printf_string(const char* s, bool has_precision, size_t precision)
 {
-    while (format) {
+    if (!s) {
+        return; /* printed as "(null)" */
+    } else if (!has_precision) {
+        privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+        return;
+    }
+    for (; precision; --precision, ++s) {
+        privatize_tx(s, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!*s) {
+            return;
+        }
+    }
+}
 
-        const char* pos = strchr(format, '%');
-        if (!pos) {
+static void
+privatize_printf_wide_string(const wchar_t* s, bool has_precision,
+                             size_t precision)
+{
+    if (!s) {
+        return; /* printed as "(null)" */
+    }
+    for (; !has_precision || precision; --precision, ++s) {
+        privatize_tx(s, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!*s) {
             return;
         }
+    }
+}
 
-        switch (pos[1]) {
+/* Walks over all arguments and privatizes the memory they refer to. Fails
+ * with EINVAL for unsupported formats, such as positional arguments. */
+static void
+privatize_printf_args(const char* format, va_list arg)
+{
+    while ((format = strchr(format, '%'))) {
 
-            case '%':
-                break;
+        ++format;
 
-            /*
-             * Conversion specifiers
-             */
+        /* Flags, width and precision */
 
-            case 'd': case 'i': case 'o': case 'u':
-            case 'x': case 'a': case 'e': case 'f':
-            case 'g':
-                break;
-            case 's':
-                privatize_c_tx(va_arg(arg, void**), '\0',
-                               PICOTM_TM_PRIVATIZE_LOAD);
-                break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
+        format += strspn(format, "-+ #0\'");
 
-            /*
-             * Length modifiers
-             */
+        if (*format == '*') {
+            va_arg(arg, int);
+            ++format;
+        } else {
+            format += strspn(format, "0123456789");
+        }
 
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n': case 'a':
-                    case 'A': case 'e': case 'E': case 'f':
-                    case 'F': case 'g': case 'G': case 'c':
-                    case '[': case 'm':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+        bool has_precision = false;
+        size_t precision = 0;
+
+        if (*format == '.') {
+            ++format;
+            has_precision = true;
+            if (*format == '*') {
+                int value = va_arg(arg, int);
+                if (value < 0) {
+                    has_precision = false; /* like no precision at all */
+                } else {
+                    precision = value;
                 }
-                ++pos;
-                break;
+                ++format;
+            } else {
+                precision = strtoul(format, NULL, 10);
+                format += strspn(format, "0123456789");
+            }
+        }
 
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+        enum length_modifier length;
+        format = parse_length_modifier(format, &length);
+
+        switch (*format) {
+            case '%':
+            case 'm':
+                break;
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X':
+                switch (integer_size(length)) {
+                    case sizeof(long):
+                        va_arg(arg, long);
                         break;
+                    case 0:
+                        goto err_format;
                     default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+                        va_arg(arg, int); /* promoted to int */
+                        break;
                 }
-                ++pos;
                 break;
-
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                if (length == LENGTH_LONG_DOUBLE) {
+                    va_arg(arg, long double);
+                } else if (length == LENGTH_NONE || length == LENGTH_L) {
+                    va_arg(arg, double);
+                } else {
+                    goto err_format;
                 }
-                ++pos;
                 break;
-
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'c':
+                if (length == LENGTH_L) {
+                    va_arg(arg, wint_t);
+                } else if (length == LENGTH_NONE) {
+                    va_arg(arg, int);
+                } else {
+                    goto err_format;
                 }
-                ++pos;
                 break;
-
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 's':
+                if (length == LENGTH_L) {
+                    privatize_printf_wide_string(va_arg(arg, wchar_t*),
+                                                 has_precision, precision);
+                } else if (length == LENGTH_NONE) {
+                    privatize_printf_string(va_arg(arg, char*),
+                                            has_precision, precision);
+                } else {
+                    goto err_format;
                 }
-                ++pos;
                 break;
-
+            case 'p':
+                va_arg(arg, void*);
+                break;
+            case 'n':
+                if (!integer_size(length)) {
+                    goto err_format;
+                }
+                privatize_tx(va_arg(arg, void*), integer_size(length),
+                             PICOTM_TM_PRIVATIZE_STORE);
+                break;
             default:
-                picotm_recover_from_errno(EINVAL);
-                continue;
+                goto err_format;
         }
 
-        format = pos + 2;
+        ++format;
     }
+
+    return;
+
+err_format:
+    picotm_recover_from_errno(EINVAL);
 }
 
 #if defined(PICOTM_LIBC_HAVE_VSNPRINTF) && PICOTM_LIBC_HAVE_VSNPRINTF
@@ -169,12 +281,13 @@ PICOTM_EXPORT
 int
 vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 {
-    privatize_c_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
     va_list ap_copy;
     va_copy(ap_copy, ap);
     privatize_printf_args(format, ap_copy);
+    va_end(ap_copy);
 
     return vsnprintf_tm(s, n, format, ap);
 
-- 
2.43.0


From 1f6c99cebfdffc1d4b1cfba779ce603d88427bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 33/75] fix: libc: Privatize the arguments of {v,}sscanf_tx()
 and return EOF

The functions refused suppressed assignments, maximum field widths,
strings and several conversions, acquired only one wide character for
strings, and failed with a random error when the input ended.
---
 modules/libc/src/stdio-tm.c |   9 +-
 modules/libc/src/stdio.c    | 204 ++++++++++++++----------------------
 2 files changed, 85 insertions(+), 128 deletions(-)

diff --git a/modules/libc/src/stdio-tm.c b/modules/libc/src/stdio-tm.c
index f70919a..6b33ba7 100644
--- a/modules/libc/src/stdio-tm.c
+++ b/modules/libc/src/stdio-tm.c
@@ -93,11 +93,18 @@ vsscanf_tm(const char* s, const char* format, va_list arg)
     } while (true);
 
     do {
+        int saved_errno = errno;
+        errno = 0;
         int res = vsscanf(s, format, arg);
-        if (res < 0) {
+        if (res < 0 && errno) {
             picotm_recover_from_errno(errno);
             continue;
         }
+        /* Without an error, a negative result signals the end of
+         * the input, which is a regular result. */
+        if (!errno) {
+            errno = saved_errno;
+        }
         return res;
     } while (true);
 }
diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index f57645f..ba2e58a 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -294,156 +294,105 @@ vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 }
 #endif
 
+/* Walks over all arguments and privatizes the memory they refer to. Fails
+ * with EINVAL for unsupported formats, such as positional arguments and
+ * strings without a maximum width. */
 static void
 privatize_scanf_args(const char* format, va_list arg)
 {
-    while (format) {
+    while ((format = strchr(format, '%'))) {
 
-        const char* pos = strchr(format, '%');
-        if (!pos) {
-            return;
+        ++format;
+
+        bool is_suppressed = false;
+
+        if (*format == '*') {
+            is_suppressed = true;
+            ++format;
         }
 
-        switch (pos[1]) {
+        size_t width = strtoul(format, NULL, 10);
+        format += strspn(format, "0123456789");
 
-            case '%':
-                break;
+        bool is_malloced = false;
 
-            /*
-             * Conversion specifiers
-             */
+        if (*format == 'm') {
+            is_malloced = true;
+            ++format;
+        }
 
-            case 'd':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'i':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'o':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'u':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'x':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'a': case 'e': case 'f':
-                /* fall through */
-            case 'g':
-                privatize_tx(va_arg(arg, float*), sizeof(float),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'p':
-                privatize_tx(va_arg(arg, void**), sizeof(void*),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
+        enum length_modifier length;
+        format = parse_length_modifier(format, &length);
 
-            /*
-             * Length modifiers
-             */
+        size_t siz = 0; /* size of the argument's memory */
 
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, long*), sizeof(long),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, double*), sizeof(double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'c': case 's': case '[':
-                        privatize_tx(va_arg(arg, wchar_t*), sizeof(wchar_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'm':
-                        privatize_tx(va_arg(arg, wchar_t**), sizeof(wchar_t*),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+        switch (*format) {
+            case '%':
+                ++format;
+                continue;
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X': case 'n':
+                siz = integer_size(length);
                 break;
-
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, intmax_t*), sizeof(intmax_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                if (length == LENGTH_NONE) {
+                    siz = sizeof(float);
+                } else if (length == LENGTH_L) {
+                    siz = sizeof(double);
+                } else if (length == LENGTH_LONG_DOUBLE) {
+                    siz = sizeof(long double);
                 }
-                ++pos;
                 break;
-
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, size_t*), sizeof(size_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case 'p':
+                siz = sizeof(void*);
                 break;
-
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, ptrdiff_t*),
-                                     sizeof(ptrdiff_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'c':
+                siz = width ? width : 1;
+                if (length == LENGTH_L) {
+                    siz *= sizeof(wchar_t);
                 }
-                ++pos;
                 break;
-
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, long double*),
-                                     sizeof(long double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case '[':
+                /* The closing bracket might be the first character. */
+                ++format;
+                if (*format == '^') {
+                    ++format;
+                }
+                format = *format ? strchr(format + 1, ']') : NULL;
+                if (!format) {
+                    goto err_format;
+                }
+                /* fall through */
+            case 's':
+                if (width) {
+                    siz = width + 1;
+                    if (length == LENGTH_L) {
+                        siz *= sizeof(wchar_t);
+                    }
+                } else if (is_suppressed || is_malloced) {
+                    siz = 1;
                 }
-                ++pos;
                 break;
-
             default:
-                picotm_recover_from_errno(EINVAL);
-                continue;
+                goto err_format;
+        }
+
+        if (!siz) {
+            goto err_format;
+        } else if (!is_suppressed) {
+            privatize_tx(va_arg(arg, void*),
+                         is_malloced ? sizeof(void*) : siz,
+                         PICOTM_TM_PRIVATIZE_STORE);
         }
 
-        format = pos + 2;
+        ++format;
     }
+
+    return;
+
+err_format:
+    picotm_recover_from_errno(EINVAL);
 }
 
 #if defined(PICOTM_LIBC_HAVE_VSSCANF) && PICOTM_LIBC_HAVE_VSSCANF
@@ -457,6 +406,7 @@ vsscanf_tx(const char* s, const char* format, va_list arg)
     va_list arg_copy;
     va_copy(arg_copy, arg);
     privatize_scanf_args(format, arg_copy);
+    va_end(arg_copy);
 
     return vsscanf_tm(s, format, arg);
 }
-- 
2.43.0


From 40285347155ff9f364745de6abe8e220ef2d877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:45 +0000
Subject: [PATCH 34/75] fix: libc: Return the file size from fstat_tx() on
 regular files

fstat_exec() took the reader lock on the file size itself. The later call to
seekbuf_tx_get_file_size() interpreted the lock as 'already read' and
returned an unset value, so st_size was 0.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 0a3edda..c1556b3 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -234,12 +234,8 @@ fstat_exec(struct file_tx* base,
         picotm_error_set_errno(error, errno);
         return -1;
     }
-    seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
-    if (picotm_error_is_set(error)) {
-        return -1;
-    }
 
-    /* get transaction-local file size */
+    /* get transaction-local file size; acquires the reader lock */
     off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From ff4d9445e576d84582367d399744d8023437fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 35/75] fix: libc: Don't replace conflicts of file operations
 with errno values

If a file operation failed to acquire a lock, the code overwrote the
reported conflict with a stale value of errno. The transaction recovered
from a non-existing error instead of rolling back and retrying.
---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 1 -
 modules/libc/src/fildes/dir_tx_ops.c     | 4 +---
 modules/libc/src/fildes/fifo_tx_ops.c    | 1 -
 modules/libc/src/fildes/regfile_tx_ops.c | 5 +----
 modules/libc/src/fildes/socket_tx_ops.c  | 1 -
 5 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 2d57a8a..7198936 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -164,7 +164,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     chrdev_tx_try_rdlock_field(self, CHRDEV_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index c6816bf..45d2850 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -82,7 +82,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     dir_tx_try_wrlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -106,7 +105,7 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        return -1;
     }
 
     return res;
@@ -223,7 +222,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     dir_tx_try_rdlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4ae4b53..0579b76 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -163,7 +163,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     fifo_tx_try_rdlock_field(self, FIFO_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index c1556b3..4d6b5fc 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -86,7 +86,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     regfile_tx_try_wrlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -110,7 +109,7 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        return -1;
     }
 
     return res;
@@ -231,7 +230,6 @@ fstat_exec(struct file_tx* base,
 
     regfile_tx_try_rdlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -721,7 +719,6 @@ read_exec(struct file_tx* base,
 
     ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return res;
     }
     size_t len = res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 60b73ac..92e460a 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -226,7 +226,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     socket_tx_try_rdlock_field(self, SOCKET_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
-- 
2.43.0


From c367ef51fc12828b6041b08ac8cfe70c1c6ce7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 36/75] fix: libc: Read the transaction-local content of
 regular files

{p,}read_tx() returned stale or uninitialized bytes for holes that have been
created by earlier writes of the transaction, and a too small number of bytes
if a hole is located at the end of the read region. During commit, read_tx()
set the file offset to the number of requested bytes instead of the number
of bytes that have been read. A negative offset of pread_tx() was not
rejected.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 82 +++++++++++++++---------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 4d6b5fc..738bce2 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -517,13 +517,19 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+/**
+ * Reads from the transaction-local view of the file: the file's content,
+ * overlaid with the transaction's write set, up to the transaction-local
+ * file size.
+ */
 static ssize_t
-pread_exec(struct file_tx* base,
-           int fildes, void* buf, size_t nbyte, off_t offset,
-           bool isnoundo, int* cookie, struct picotm_error* error)
+read_from_view(struct seekbuf_tx* seekbuf_tx, int fildes, void* buf,
+               size_t nbyte, off_t offset, struct picotm_error* error)
 {
-    struct regfile_tx* self = regfile_tx_of_file_tx(base);
-    struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
+    off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* lock region */
     seekbuf_tx_try_rdlock_region(seekbuf_tx, nbyte, offset, error);
@@ -533,17 +539,46 @@ pread_exec(struct file_tx* base,
 
     /* read from file */
     ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
-        return res;
+    if (picotm_error_is_set(error) || (res < 0)) {
+        return -1;
     }
     size_t len = res;
 
+    /* bytes between the file's end and the transaction-local
+     * file size are either part of a hole or the write set */
+
+    size_t avail = 0;
+    if (offset < file_size) {
+        avail = llmin(nbyte, file_size - offset);
+    }
+    if (len < avail) {
+        memset((uint8_t*)buf + len, 0, avail - len);
+        len = avail;
+    }
+
     /* read from local write set */
-    size_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                               seekbuf_tx->wrtablen,
-                               buf, nbyte, offset, seekbuf_tx->wrbuf);
+    if (len) {
+        iooptab_read(seekbuf_tx->wrtab, seekbuf_tx->wrtablen,
+                     buf, len, offset, seekbuf_tx->wrbuf);
+    }
+
+    return len;
+}
+
+static ssize_t
+pread_exec(struct file_tx* base,
+           int fildes, void* buf, size_t nbyte, off_t offset,
+           bool isnoundo, int* cookie, struct picotm_error* error)
+{
+    struct regfile_tx* self = regfile_tx_of_file_tx(base);
+    struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
+
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
 
-    return llmax(len, len2);
+    return read_from_view(seekbuf_tx, fildes, buf, nbyte, offset, error);
 }
 
 /*
@@ -708,29 +743,12 @@ read_exec(struct file_tx* base,
         return -1;
     }
 
-    /* read-lock region */
-
-    seekbuf_tx_try_rdlock_region(seekbuf_tx, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
+    ssize_t res = read_from_view(seekbuf_tx, fildes, buf, nbyte, offset,
+                                 error);
+    if (picotm_error_is_set(error) || (res < 0)) {
         return -1;
     }
 
-    /* read from file */
-
-    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
-        return res;
-    }
-    size_t len = res;
-
-    /* read from local write set */
-
-    ssize_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                                seekbuf_tx->wrtablen, buf, nbyte, offset,
-                                seekbuf_tx->wrbuf);
-
-    res = llmax(len, len2);
-
     /* update file offset */
 
     regfile_tx_set_file_offset(self, offset + res, error);
@@ -739,7 +757,7 @@ read_exec(struct file_tx* base,
     }
 
     /* add buf to write set */
-    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, nbyte, offset, buf,
+    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, res, offset, buf,
                                            error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From 8b1099f4227ceec13d3efc7b21eb36de5fef8fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 37/75] fix: libc: Handle access mode and O_APPEND when writing
 regular files

{p,}write_tx() on a read-only file descriptor succeeded and the error was
only detected during commit. Writes with O_APPEND went to the file offset
instead of the end of the file, and empty writes beyond the end of the file
changed the transaction-local file size. A negative offset of pwrite_tx()
was not rejected.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 61 +++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 738bce2..018f7be 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -650,6 +651,26 @@ do_pwrite(int fildes, const void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+/**
+ * Tests if the file descriptor is open for writing. The write set is
+ * only applied during commit, when errors cannot be reported any longer.
+ * Returns the file-status flags.
+ */
+static int
+get_status_flags_for_write(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return -1;
+    }
+    if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+        return -1;
+    }
+    return flags;
+}
+
 static ssize_t
 pwrite_exec(struct file_tx* base,
             int fildes, const void* buf, size_t nbyte, off_t offset,
@@ -665,6 +686,30 @@ pwrite_exec(struct file_tx* base,
         return -1;
     }
 
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
+
+    int flags = get_status_flags_for_write(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    if (!nbyte) {
+        return 0;
+    }
+
+#if defined(__linux__)
+    if (flags & O_APPEND) {
+        /* Linux ignores the offset; see BUGS in pwrite(2) */
+        offset = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+    }
+#endif
+
     /* lock region */
     seekbuf_tx_try_wrlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
@@ -821,7 +866,21 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    off_t offset = regfile_tx_get_file_offset(self, fildes, error);
+    int flags = get_status_flags_for_write(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    if (!nbyte) {
+        return 0;
+    }
+
+    off_t offset;
+    if (flags & O_APPEND) {
+        offset = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+    } else {
+        offset = regfile_tx_get_file_offset(self, fildes, error);
+    }
     if (picotm_error_is_set(error)) {
         return -1;
     }
-- 
2.43.0


From ef02c70b1b59c24331431af8adcbf633572d1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 38/75] fix: libc: Test range of file descriptors

The tables of file descriptors have a fixed number of entries. Invalid file
descriptors and file descriptors beyond the final entry resulted in
out-of-bounds accesses. Return EBADF instead.
---
 modules/libc/src/fildes/fildes_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 9a3cbfc..45f9267 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1059,6 +1059,11 @@ static struct fd_tx*
 find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
                     bool new_file, struct picotm_error* error)
 {
+    if ((fildes < 0) || (fildes >= (ssize_t)picotm_arraylen(self->fd_tx))) {
+        picotm_error_set_errno(error, EBADF);
+        return NULL;
+    }
+
     struct fd_tx* fd_tx = get_fd_tx(self, fildes);
 
     /* In |struct fildes_tx| we hold at most one reference to the
-- 
2.43.0


From fb6a1109ee1c58977358d0121b2284517dc31b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 39/75] fix: libc: Return EBADF for file descriptors closed
 within the transaction

A file descriptor is closed during commit. After close_tx(), later operations
of the same transaction still succeeded on the file descriptor.
---
 modules/libc/src/fildes/fd_tx.c     | 10 +++++++++-
 modules/libc/src/fildes/fd_tx.h     |  3 +++
 modules/libc/src/fildes/fildes_tx.c |  4 ++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index e063034..4b3f9a6 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -99,6 +99,7 @@ fd_tx_init(struct fd_tx* self)
     self->fd = NULL;
     self->file_tx = NULL;
     self->cc_mode = PICOTM_LIBC_CC_MODE_2PL;
+    self->closed = false;
 
     init_rwstates(picotm_arraybeg(self->rwstate),
                   picotm_arrayend(self->rwstate));
@@ -142,6 +143,7 @@ fd_tx_ref_or_set_up(struct fd_tx* self, struct fd* fd, struct file_tx* file_tx,
 
     self->fd = fd;
     self->file_tx = file_tx;
+    self->closed = false;
 
     return;
 
@@ -347,7 +349,13 @@ fd_tx_close_exec(struct fd_tx* self,
 
     assert(close_exec[self->cc_mode]);
 
-    return close_exec[self->cc_mode](self, fildes, cookie, error);
+    int res = close_exec[self->cc_mode](self, fildes, cookie, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+    self->closed = true; /* no further use by this transaction */
+
+    return res;
 }
 
 static void
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index 0d45853..4c924fb 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -64,6 +64,9 @@ struct fd_tx {
     struct file_tx* file_tx;
     enum picotm_libc_cc_mode cc_mode;
 
+    /** Closed within the transaction. The close happens during commit. */
+    bool closed;
+
     /** Reader/writer state for file descriptor */
     struct picotm_rwstate   rwstate[NUMBER_OF_FD_FIELDS];
 
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 45f9267..4cfc558 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1077,6 +1077,10 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         if (picotm_error_is_set(error)) {
             return NULL;
         }
+        if (fd_tx->closed) {
+            picotm_error_set_errno(error, EBADF);
+            return NULL;
+        }
 
         return fd_tx;
     }
-- 
2.43.0


From 717cd9cc576bcf156cacecb0e2339007684afe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 40/75] fix: libc: Don't leak transaction-local state of
 refused file descriptors

If referencing a file or file buffer failed, its newly allocated transaction
state was lost.
---
 modules/libc/src/fildes/fildes_tx.c | 31 ++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 4cfc558..784c31c 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -439,6 +439,8 @@ get_pipebuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_pipebuf_tx_ref_or_set_up:
     filebuf_unref(&pipebuf->base);
 err_fildes_ref_pipebuf:
+    picotm_slist_enqueue_front(&self->pipebuf_tx_alloced_list,
+                               &pipebuf_tx->list_entry);
 err_get_pipebuf_tx:
     return NULL;
 }
@@ -533,6 +535,8 @@ get_seekbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_seekbuf_tx_ref_or_set_up:
     filebuf_unref(&seekbuf->base);
 err_fildes_ref_seekbuf:
+    picotm_slist_enqueue_front(&self->seekbuf_tx_alloced_list,
+                               &seekbuf_tx->list_entry);
 err_get_seekbuf_tx:
     return NULL;
 }
@@ -641,6 +645,8 @@ get_sockbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_sockbuf_tx_ref_or_set_up:
     filebuf_unref(&sockbuf->base);
 err_fildes_ref_sockbuf:
+    picotm_slist_enqueue_front(&self->sockbuf_tx_alloced_list,
+                               &sockbuf_tx->list_entry);
 err_get_sockbuf_tx:
     return NULL;
 }
@@ -717,7 +723,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct chrdev* chrdev = fildes_ref_chrdev(self->fildes, fildes,
                                               new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_chrdev;
     }
 
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
@@ -734,6 +740,9 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 
 err_file_tx_ref_or_set_up:
     file_unref(&chrdev->base);
+err_fildes_ref_chrdev:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &chrdev_tx->base.list_entry);
     return NULL;
 }
 
@@ -767,7 +776,7 @@ get_fifo_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct fifo* fifo = fildes_ref_fifo(self->fildes, fildes,
                                         new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_fifo;
     }
 
     struct pipebuf_tx* pipebuf_tx = get_pipebuf_tx_with_ref(self,
@@ -794,6 +803,9 @@ get_fifo_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_pipebuf_tx_with_ref:
     file_unref(&fifo->base);
+err_fildes_ref_fifo:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &fifo_tx->base.list_entry);
     return NULL;
 }
 
@@ -827,7 +839,7 @@ get_regfile_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct regfile* regfile = fildes_ref_regfile(self->fildes, fildes,
                                                  new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_regfile;
     }
 
     struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
@@ -852,6 +864,9 @@ get_regfile_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_seekbuf_tx_with_ref:
     file_unref(&regfile->base);
+err_fildes_ref_regfile:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &regfile_tx->base.list_entry);
     return NULL;
 }
 
@@ -884,7 +899,7 @@ get_dir_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
      */
     struct dir* dir = fildes_ref_dir(self->fildes, fildes, new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_dir;
     }
 
     file_tx_ref_or_set_up(&dir_tx->base, &dir->base, NULL, error);
@@ -901,6 +916,9 @@ get_dir_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 
 err_file_tx_ref_or_set_up:
     file_unref(&dir->base);
+err_fildes_ref_dir:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &dir_tx->base.list_entry);
     return NULL;
 }
 
@@ -934,7 +952,7 @@ get_socket_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct socket* socket = fildes_ref_socket(self->fildes, fildes,
                                               new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_socket;
     }
 
     struct sockbuf_tx* sockbuf_tx = get_sockbuf_tx_with_ref(self, fildes,
@@ -959,6 +977,9 @@ get_socket_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_sockbuf_tx_with_ref:
     file_unref(&socket->base);
+err_fildes_ref_socket:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &socket_tx->base.list_entry);
     return NULL;
 }
 
-- 
2.43.0


From cce3ce459c0067ccb9ff72a5b5aa174aee3b37cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 41/75] fix: libc: Search for socket buffers in list of active
 socket buffers

The code searched the list of pipe buffers. A socket that is referenced by
the transaction wasn't found, or an entry of the wrong type was returned.
---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 784c31c..b15e9e9 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -575,7 +575,7 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 {
     /* Let's see if we already have the sockbuf in use.*/
 
-    struct picotm_slist* pos = picotm_slist_find_1(&self->pipebuf_tx_active_list,
+    struct picotm_slist* pos = picotm_slist_find_1(&self->sockbuf_tx_active_list,
                                                    true_if_eq_sockbuf_id_cb,
                                                    (void*)id);
     if (pos != picotm_slist_end(&self->sockbuf_tx_active_list)) {
-- 
2.43.0


From 53735ca52ac61abaa2ded08b095b0ad2ca0f9041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 42/75] fix: libc: Test for O_TRUNC, O_CREAT and O_EXCL in
 flags of open_tx()

The code tested the mode argument. open_tx() with O_TRUNC truncated files from
within revocable transactions, and files created with O_CREAT|O_EXCL were
not removed during rollbacks.
---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index b15e9e9..5124a02 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2406,8 +2406,8 @@ undo_mkstemp(struct fildes_tx* self, int fildes, int cookie,
  * open()
  */
 
-#define DO_UNLINK(mode_) \
-    ( ( (mode_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
+#define DO_UNLINK(oflag_) \
+    ( ( (oflag_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
 
 int
 fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
@@ -2415,7 +2415,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 {
     /* O_TRUNC needs irrevocability */
 
-    if ((mode&O_TRUNC) && !isnoundo) {
+    if ((oflag&O_TRUNC) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
     }
@@ -2447,7 +2447,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
     }
 
     int cookie = openoptab_append(&self->openoptab,
-                                  &self->openoptablen, DO_UNLINK(mode),
+                                  &self->openoptablen, DO_UNLINK(oflag),
                                   error);
     if (picotm_error_is_set(error)) {
         goto err_openoptab_append;
-- 
2.43.0


From f70c05e09807c2e2d95616bc9845d28e82df8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 43/75] fix: libc: Don't dereference NULL in fcntl_{tm,tx}()
 for commands without argument

F_GETFD, F_GETFL and F_GETOWN store their result in the command's argument.
---
 modules/libc/src/fcntl-tm.c | 7 +++++--
 modules/libc/src/fcntl.c    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index fa1ac7f..df7000d 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -93,9 +93,12 @@ fcntl_tm(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                val.arg0 = 0;
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 6185624..10add88 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -96,9 +96,12 @@ fcntl_tx(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                val.arg0 = 0;
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
-- 
2.43.0


From eaf2d140460cf3874af5fdc108e8b851fe90178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 44/75] fix: libc: Hand over record locks correctly in
 fcntl_{tm,tx}()

The lock structure was passed to fcntl() by value instead of by reference, and
the result of F_GETLK was never returned to the caller.
---
 modules/libc/src/fcntl-tm.c              | 3 +++
 modules/libc/src/fcntl.c                 | 7 ++++++-
 modules/libc/src/fildes/chrdev_tx_ops.c  | 4 ++--
 modules/libc/src/fildes/dir_tx_ops.c     | 4 ++--
 modules/libc/src/fildes/fifo_tx_ops.c    | 4 ++--
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 modules/libc/src/fildes/socket_tx_ops.c  | 4 ++--
 7 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index df7000d..aa1c985 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -91,6 +91,9 @@ fcntl_tm(int fildes, int cmd, ...)
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error) && (cmd == F_GETLK)) {
+                    memcpy(f, &val.arg1, sizeof(*f));
+                }
                 break;
             }
             default: {
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 10add88..c3ebce7 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -90,10 +90,15 @@ fcntl_tx(int fildes, int cmd, ...)
                 f = va_arg(arg, struct flock*);
                 va_end(arg);
 
-                privatize_tx(f, sizeof(val.arg1), PICOTM_TM_PRIVATIZE_LOAD);
+                privatize_tx(f, sizeof(val.arg1),
+                             cmd == F_GETLK ? PICOTM_TM_PRIVATIZE_LOADSTORE
+                                            : PICOTM_TM_PRIVATIZE_LOAD);
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error) && (cmd == F_GETLK)) {
+                    memcpy(f, &val.arg1, sizeof(*f));
+                }
                 break;
             }
             default: {
diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 7198936..e250d83 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -106,7 +106,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -137,7 +137,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index 45d2850..b814d27 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -164,7 +164,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -195,7 +195,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 0579b76..4cf8427 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -105,7 +105,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -136,7 +136,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 018f7be..6d54071 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -171,7 +171,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -202,7 +202,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 92e460a..b98c912 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -168,7 +168,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -199,7 +199,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
-- 
2.43.0


From 3eff979944f5bd1b17f5cc227afcbdb34eed70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 45/75] fix: libc: Respect lower bound of F_DUPFD in
 fcntl_{tm,tx}()

The argument was ignored, and file descriptors below the requested minimum
were returned.
---
 modules/libc/src/fcntl-tm.c         | 22 ++++++++++++++++++----
 modules/libc/src/fcntl.c            | 22 ++++++++++++++++++----
 modules/libc/src/fildes/fd_tx.c     |  4 +---
 modules/libc/src/fildes/fd_tx.h     |  2 +-
 modules/libc/src/fildes/fildes_tx.c |  6 +++---
 modules/libc/src/fildes/fildes_tx.h |  2 +-
 modules/libc/src/fildes/module.c    |  7 ++++---
 modules/libc/src/fildes/module.h    |  2 +-
 8 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index aa1c985..c0f81c8 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -56,15 +56,29 @@ fcntl_tm(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, false, start_fildes,
+                                                 &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, true, start_fildes,
+                                                 &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index c3ebce7..2ed8035 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -58,15 +58,29 @@ fcntl_tx(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, false, start_fildes,
+                                                 &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, true, start_fildes,
+                                                 &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 4b3f9a6..cacb03b 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -452,7 +452,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, bool cloexec, int start_fildes,
                bool isnoundo, int* cookie, struct picotm_error* error)
 {
     static const int fcntl_cmd[] = {
@@ -464,8 +464,6 @@ fd_tx_dup_exec(struct fd_tx* self,
 #endif
     };
 
-    static const int start_fildes = 0;
-
     int res = TEMP_FAILURE_RETRY(fcntl(fildes, fcntl_cmd[cloexec],
                                        start_fildes));
     if (res < 0) {
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index 4c924fb..3a53fab 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -216,7 +216,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, bool cloexec, int start_fildes,
                bool isnoundo, int* cookie, struct picotm_error* error);
 
 void
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 5124a02..fd3a546 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1632,7 +1632,7 @@ undo_connect(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
-                   int isnoundo, struct picotm_error* error)
+                   int start_fildes, int isnoundo, struct picotm_error* error)
 {
     assert(self);
 
@@ -1653,8 +1653,8 @@ fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
 
     int cookie = -1;
 
-    int res = fd_tx_dup_exec(fd_tx, fildes, cloexec, isnoundo, &cookie,
-                             error);
+    int res = fd_tx_dup_exec(fd_tx, fildes, cloexec, start_fildes, isnoundo,
+                             &cookie, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index c5db04c..269be1f 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -116,7 +116,7 @@ fildes_tx_exec_connect(struct fildes_tx* self, int sockfd,
 
 int
 fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
-                   int isnoundo, struct picotm_error* error);
+                   int start_fildes, int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_fchdir(struct fildes_tx* self, int fildes,
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index b78e396..af35d81 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -290,13 +290,14 @@ fildes_module_connect(int sockfd, const struct sockaddr* serv_addr,
 }
 
 int
-fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
+fildes_module_dup_internal(int fildes, int cloexec, int start_fildes,
+                           struct picotm_error* error)
 {
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_dup(fildes_tx, fildes, cloexec,
+    return fildes_tx_exec_dup(fildes_tx, fildes, cloexec, start_fildes,
                               picotm_is_irrevocable(),
                               error);
 }
@@ -304,7 +305,7 @@ fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
 int
 fildes_module_dup(int fildes, struct picotm_error* error)
 {
-    return fildes_module_dup_internal(fildes, 0, error);
+    return fildes_module_dup_internal(fildes, 0, 0, error);
 }
 
 int
diff --git a/modules/libc/src/fildes/module.h b/modules/libc/src/fildes/module.h
index 63da5cb..2d55a6c 100644
--- a/modules/libc/src/fildes/module.h
+++ b/modules/libc/src/fildes/module.h
@@ -60,7 +60,7 @@ int
 fildes_module_dup(int fildes, struct picotm_error* error);
 
 int
-fildes_module_dup_internal(int fildes, int cloexec,
+fildes_module_dup_internal(int fildes, int cloexec, int start_fildes,
                            struct picotm_error* error);
 
 int
-- 
2.43.0


From 7bd93888db60223517beb86f6f28b19468d6970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 46/75] fix: libc: Release log of fcntl_tx() operations

The table of operations grew with every call to fcntl_tx() and has never
been released.
---
 modules/libc/src/fildes/fd_tx.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index cacb03b..a2d7d17 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -113,6 +113,8 @@ fd_tx_uninit(struct fd_tx* self)
 {
     assert(self);
 
+    fcntloptab_clear(&self->fcntltab, &self->fcntltablen);
+
     uninit_rwstates(picotm_arraybeg(self->rwstate),
                     picotm_arrayend(self->rwstate));
 
@@ -229,6 +231,8 @@ fd_tx_finish(struct fd_tx* self)
     unlock_rwstates(picotm_arraybeg(self->rwstate),
                     picotm_arrayend(self->rwstate),
                     self->fd);
+
+    fcntloptab_clear(&self->fcntltab, &self->fcntltablen);
 }
 
 /*
@@ -532,8 +536,6 @@ fd_tx_fcntl_exec(struct fd_tx* self,
         return -1;
     }
 
-    union fcntl_arg oldvalue;
-
     int res = -1;
 
     switch (cmd) {
@@ -568,7 +570,7 @@ fd_tx_fcntl_exec(struct fd_tx* self,
 
     if (cookie) {
         *cookie = fcntloptab_append(&self->fcntltab,
-                                    &self->fcntltablen, cmd, arg, &oldvalue,
+                                    &self->fcntltablen, cmd, arg, NULL,
                                     error);
         if (picotm_error_is_set(error)) {
             goto err_cmd;
-- 
2.43.0


From 0a1c3923e5502261b9e88ab5ae7aff69216e58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 47/75] fix: libc: Detect errors in dup2_tx()

A failed call to dup2() returned -1 from dup2_tx() instead of starting error
recovery.
---
 modules/libc/src/unistd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 085004a..71c8aa8 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -116,6 +116,9 @@ dup2_tx(int fildes, int fildes2)
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = dup2(fildes, fildes2);
+        if (res < 0) {
+            picotm_error_set_errno(&error, errno);
+        }
         if (!picotm_error_is_set(&error)) {
             return res;
         }
-- 
2.43.0


From 8b610ed2250671744d242a6d2e8c0752687da942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 48/75] fix: libc: Don't cache pages of record locks across
 transactions

The transaction-local lock counters are reused for different files, but kept
a reference to the locks of the first file. Transactions then acquired the
locks of an unrelated file.
---
 modules/libc/src/fildes/rwcountermap.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index fbd5413..d30649d 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -35,8 +35,7 @@
  */
 
 struct rwcountermap_page {
-    struct rwlockmap_page* lockpg;
-    struct rwcounter       counter[RWLOCKMAP_PAGE_NENTRIES];
+    struct rwcounter counter[RWLOCKMAP_PAGE_NENTRIES];
 };
 
 static void
@@ -44,8 +43,6 @@ rwcountermap_page_init(struct rwcountermap_page* self)
 {
     assert(self);
 
-    self->lockpg = NULL;
-
     struct rwcounter* counter_beg = picotm_arraybeg(self->counter);
     struct rwcounter* counter_end = picotm_arrayend(self->counter);
 
@@ -69,16 +66,15 @@ rwcountermap_page_get_rwlockmap_page(struct rwcountermap_page* self,
 {
     assert(self);
 
-    if (self->lockpg) {
-        return self->lockpg;
-    }
-
-    self->lockpg = rwlockmap_find_page(rwlockmap, offset, error);
+    /* The page of locks must not be stored across calls. Counter pages
+     * are being reused for different files. */
+    struct rwlockmap_page* lockpg = rwlockmap_find_page(rwlockmap, offset,
+                                                        error);
     if (picotm_error_is_set(error)) {
         return NULL;
     }
 
-    return self->lockpg;
+    return lockpg;
 }
 
 static struct rwcounter*
-- 
2.43.0


From 0607a380787c70e4e385b5bad40cfd5fdd8fd0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 49/75] fix: libc: Release record locks if locking a region
 fails

If the lock of one of the region's records could not be acquired, the locks of
the preceding records were held forever.
---
 modules/libc/src/fildes/rwcountermap.c | 33 ++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index d30649d..64e4384 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -182,7 +182,11 @@ key_bits(unsigned long long offset, unsigned long page_nbits)
     return offset >> page_nbits;
 }
 
-void
+/**
+ * Returns the number of records for which the call-back function
+ * has been performed successfully.
+ */
+static unsigned long long
 rwcountermap_for_each_record_in_range(
     struct rwcountermap* self,
     unsigned long long record_length, unsigned long long record_offset,
@@ -193,13 +197,15 @@ rwcountermap_for_each_record_in_range(
 {
     assert(self);
 
+    unsigned long long nrecords = 0;
+
     while (record_length) {
 
         uintptr_t value = picotm_treemap_find_value(
             &self->map, key_bits(record_offset, RWLOCKMAP_PAGE_NBITS),
             rwcountermap_create_page_fn, error);
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
         struct rwcountermap_page* statepg = (struct rwcountermap_page*)value;
 
@@ -210,13 +216,16 @@ rwcountermap_for_each_record_in_range(
                                                        rwlockmap,
                                                        call_record,
                                                        error);
+        nrecords += diff;
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
 
         record_length -= diff;
         record_offset += diff;
     }
+
+    return nrecords;
 }
 
 static void
@@ -232,8 +241,13 @@ rwcountermap_rdlock(struct rwcountermap* self,
                   unsigned long long record_offset,
                   struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, rdlock_record, error);
+    unsigned long long nrecords = rwcountermap_for_each_record_in_range(
+        self, record_length, record_offset, rwlockmap, rdlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records that have been locked by this call */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+        return;
+    }
 }
 
 static void
@@ -249,8 +263,13 @@ rwcountermap_wrlock(struct rwcountermap* self,
                     unsigned long long record_offset,
                     struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, wrlock_record, error);
+    unsigned long long nrecords = rwcountermap_for_each_record_in_range(
+        self, record_length, record_offset, rwlockmap, wrlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records that have been locked by this call */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+        return;
+    }
 }
 
 static void
-- 
2.43.0


From 9ab5ab169353ed5704b662f3dcdd0c834a8b7876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 50/75] fix: libc: Release region locks if storing the region
 fails

Regions that are missing from the transaction's table were never unlocked.
---
 modules/libc/src/fildes/seekbuf_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/seekbuf_tx.c b/modules/libc/src/fildes/seekbuf_tx.c
index 0aa6a27..ea89284 100644
--- a/modules/libc/src/fildes/seekbuf_tx.c
+++ b/modules/libc/src/fildes/seekbuf_tx.c
@@ -276,6 +276,8 @@ seekbuf_tx_try_rdlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
@@ -300,6 +302,8 @@ seekbuf_tx_try_wrlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
-- 
2.43.0


From bfccec72a473c4368cfa8d0422147a81d0b733c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 51/75] fix: libc: Lock all records of unaligned file regions

The number of records did not take the region's offset into account. The final
record of the region remained unlocked if the region's first byte wasn't
located at a record boundary.
---
 modules/libc/src/fildes/seekbuf.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/seekbuf.c b/modules/libc/src/fildes/seekbuf.c
index 0980d2b..288ad0a 100644
--- a/modules/libc/src/fildes/seekbuf.c
+++ b/modules/libc/src/fildes/seekbuf.c
@@ -31,9 +31,12 @@ recoffset(off_t off)
 }
 
 static size_t
-reccount(size_t len)
+reccount(off_t off, size_t len)
 {
-    return 1 + len/RECSIZE;
+    if (!len) {
+        return 1;
+    }
+    return 1 + recoffset(off + (len - 1)) - recoffset(off);
 }
 
 static size_t
@@ -120,7 +123,7 @@ seekbuf_try_rdlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_rdlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_rdlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -130,7 +133,7 @@ seekbuf_try_wrlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_wrlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_wrlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -138,6 +141,6 @@ void
 seekbuf_unlock_region(struct seekbuf self[static 1], off_t off, size_t nbyte,
                       struct rwcountermap rwcountermap[static 1])
 {
-    rwcountermap_unlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_unlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap);
 }
-- 
2.43.0


From 99b01a241706eb8e059374e5f4eb1bcb2f9ae9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 52/75] fix: libc: Set up the buffer of character devices

The field for the file buffer was never set. Writing to a character device
from within a transaction dereferenced NULL.
---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index fd3a546..014ce5f 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -726,10 +726,17 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         goto err_fildes_ref_chrdev;
     }
 
+    struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
+                                                            new_file, error);
+    if (picotm_error_is_set(error)) {
+        goto err_get_seekbuf_tx_with_ref;
+    }
+
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
     if (picotm_error_is_set(error)) {
         goto err_file_tx_ref_or_set_up;
     }
+    chrdev_tx->seekbuf_tx = seekbuf_tx;
 
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &chrdev_tx->base.list_entry);
@@ -739,6 +746,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     return chrdev_tx;
 
 err_file_tx_ref_or_set_up:
+err_get_seekbuf_tx_with_ref:
     file_unref(&chrdev->base);
 err_fildes_ref_chrdev:
     picotm_slist_enqueue_front(&self->file_tx_alloced_list,
-- 
2.43.0


From 55298e2ae19ca27a79e8cc087857e609321f78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:21 +0000
Subject: [PATCH 53/75] fix: libc: Support duplicating a file descriptor's
 duplicate

The code searched for the file by the number of the file descriptor. A file
that has been opened by a different descriptor wasn't found, so duplicating
a descriptor twice within a transaction failed with EBADF.
---
 modules/libc/src/fildes/fildes_tx.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 014ce5f..682d528 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1119,10 +1119,17 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         return NULL;
     }
 
-    struct file_tx* file_tx = get_file_tx_with_ref(self, old_fildes,
-                                                   new_file, error);
-    if (picotm_error_is_set(error)) {
-        goto err_get_file_tx_with_ref;
+    struct file_tx* file_tx;
+
+    if (fildes != old_fildes) {
+        /* A duplicate shares the file with the original file descriptor,
+         * which is already in use. */
+        file_tx = get_existing_fd_tx(self, old_fildes)->file_tx;
+    } else {
+        file_tx = get_file_tx_with_ref(self, old_fildes, new_file, error);
+        if (picotm_error_is_set(error)) {
+            goto err_get_file_tx_with_ref;
+        }
     }
 
     fd_tx_ref_or_set_up(fd_tx, fd, file_tx, error);
-- 
2.43.0


From 240759f90f7577f3d7ec382f4c0c7f53a1b6e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 54/75] fix: libc: Apply buffered writes at their offset after
 setting O_APPEND

If an irrevocable transaction wrote to a regular file and enabled O_APPEND
afterwards, committing the write set appended the buffer to the file.
---
 modules/libc/src/fildes/regfile_tx.c     |  3 ++
 modules/libc/src/fildes/regfile_tx.h     |  4 ++
 modules/libc/src/fildes/regfile_tx_ops.c | 57 ++++++++++++++++++++++--
 3 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx.c b/modules/libc/src/fildes/regfile_tx.c
index eae8dfd..b462c68 100644
--- a/modules/libc/src/fildes/regfile_tx.c
+++ b/modules/libc/src/fildes/regfile_tx.c
@@ -71,6 +71,8 @@ regfile_tx_init(struct regfile_tx* self)
 
     self->offset = 0;
 
+    self->status_flags_changed = false;
+
     init_rwstates(picotm_arraybeg(self->rwstate),
                   picotm_arrayend(self->rwstate));
 }
@@ -99,6 +101,7 @@ regfile_tx_prepare(struct regfile_tx* self, struct regfile* regfile,
     self->fcntltablen = 0;
     self->seektablen = 0;
     self->offset = 0;
+    self->status_flags_changed = false;
 }
 
 void
diff --git a/modules/libc/src/fildes/regfile_tx.h b/modules/libc/src/fildes/regfile_tx.h
index 009cb30..2968127 100644
--- a/modules/libc/src/fildes/regfile_tx.h
+++ b/modules/libc/src/fildes/regfile_tx.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "picotm/picotm-lib-rwstate.h"
+#include <stdbool.h>
 #include <sys/types.h>
 #include "picotm/picotm-libc.h"
 #include "file_tx.h"
@@ -57,6 +58,9 @@ struct regfile_tx {
     /* Transaction-local file offset */
     off_t offset;
 
+    /** True if the transaction changed the file-status flags. */
+    bool status_flags_changed;
+
     /** State of the local reader/writer locks. */
     struct picotm_rwstate rwstate[NUMBER_OF_REGFILE_FIELDS];
 };
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 6d54071..af2a177 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -192,6 +192,9 @@ fcntl_exec(struct file_tx* base,
                 picotm_error_set_errno(error, errno);
                 return res;
             }
+            if (cmd == F_SETFL) {
+                self->status_flags_changed = true;
+            }
             return res;
         }
         case F_SETLK:
@@ -750,6 +753,48 @@ pwrite_exec(struct file_tx* base,
     return len;
 }
 
+/**
+ * Writes a buffer of the write set to its offset in the file. If the
+ * transaction enabled O_APPEND *after* it stored the buffer, the flag
+ * doesn't affect the write. Only irrevocable transactions change the
+ * file-status flags, so no other transaction observes the difference.
+ */
+static ssize_t
+apply_pwrite(struct regfile_tx* self, int fildes, const void* buf,
+             size_t nbyte, off_t offset, struct picotm_error* error)
+{
+    int flags = 0;
+
+    if (self->status_flags_changed) {
+        flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+        if (flags < 0) {
+            picotm_error_set_errno(error, errno);
+            return -1;
+        }
+    }
+
+    if (flags & O_APPEND) {
+        int res = TEMP_FAILURE_RETRY(fcntl(fildes, F_SETFL,
+                                           flags & ~O_APPEND));
+        if (res < 0) {
+            picotm_error_set_errno(error, errno);
+            return -1;
+        }
+    }
+
+    ssize_t len = do_pwrite(fildes, buf, nbyte, offset, error);
+
+    if (flags & O_APPEND) {
+        int res = TEMP_FAILURE_RETRY(fcntl(fildes, F_SETFL, flags));
+        if ((res < 0) && !picotm_error_is_set(error)) {
+            picotm_error_set_errno(error, errno);
+            return -1;
+        }
+    }
+
+    return len;
+}
+
 static void
 pwrite_apply(struct file_tx* base, int fildes, int cookie,
              struct picotm_error* error)
@@ -765,7 +810,7 @@ pwrite_apply(struct file_tx* base, int fildes, int cookie,
     size_t nbyte = seekbuf_tx->wrtab[cookie].nbyte;
     off_t  bufoff = seekbuf_tx->wrtab[cookie].bufoff;
 
-    do_pwrite(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off, error);
+    apply_pwrite(self, fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off, error);
     if (picotm_error_is_set(error)) {
         return;
     }
@@ -947,12 +992,18 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     size_t nbyte = seekbuf_tx->wrtab[cookie].nbyte;
     off_t  bufoff = seekbuf_tx->wrtab[cookie].bufoff;
 
-    do_pwrite_and_lseek(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off,
-                        error);
+    ssize_t len = apply_pwrite(self, fildes, seekbuf_tx->wrbuf + bufoff,
+                               nbyte, off, error);
     if (picotm_error_is_set(error)) {
         return;
     }
 
+    off_t res = lseek(fildes, off + len, SEEK_SET);
+    if (res == (off_t)-1) {
+        picotm_error_set_errno(error, errno);
+        return;
+    }
+
     /* TODO: error if less than len bytes were written */
 }
 
-- 
2.43.0


From 85d7bfe11baab2483da3b6b3dbc95b24a9e3daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:16 +0000
Subject: [PATCH 55/75] fix: libc: Return available data when reading from
 FIFOs, sockets and devices

---
 modules/libc/src/fildes/chrdev_tx_ops.c | 29 +++----------
 modules/libc/src/fildes/fifo_tx_ops.c   | 29 +++----------
 modules/libc/src/fildes/socket_tx_ops.c | 58 +++++--------------------
 3 files changed, 24 insertions(+), 92 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index e250d83..f1385f7 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -188,30 +188,13 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
-        }
-
-        pos += res;
+    /* A single call; trying to fill the buffer would block while there's
+     * data available, and would join individual messages. */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0 && !errno_signals_blocking_io(errno)) {
+        picotm_error_set_errno(error, errno);
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4cf8427..bf99333 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -187,30 +187,13 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
-        }
-
-        pos += res;
+    /* A single call; trying to fill the buffer would block while there's
+     * data available, and would join individual messages. */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0 && !errno_signals_blocking_io(errno)) {
+        picotm_error_set_errno(error, errno);
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index b98c912..541a636 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -272,30 +272,13 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
-        }
-
-        pos += res;
+    /* A single call; trying to fill the buffer would block while there's
+     * data available, and would join individual messages. */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0 && !errno_signals_blocking_io(errno)) {
+        picotm_error_set_errno(error, errno);
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
@@ -331,30 +314,13 @@ static ssize_t
 do_recv(int sockfd, void* buffer, size_t length, int flags,
         struct picotm_error* error)
 {
-    uint8_t* pos = buffer;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + length;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(recv(sockfd, pos, end - pos, flags));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
-        }
-
-        pos += res;
+    /* A single call; trying to fill the buffer would block while there's
+     * data available, and would join individual messages. */
+    ssize_t res = TEMP_FAILURE_RETRY(recv(sockfd, buffer, length, flags));
+    if (res < 0 && !errno_signals_blocking_io(errno)) {
+        picotm_error_set_errno(error, errno);
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
-- 
2.43.0


From 55ba839d8017f31702fea524bbc9e7dfe37a0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:16 +0000
Subject: [PATCH 56/75] fix: libc: Apply buffered writes to non-blocking files
 completely

---
 modules/libc/src/fildes/chrdev_tx_ops.c | 37 ++++++++++++-
 modules/libc/src/fildes/fifo_tx_ops.c   | 37 ++++++++++++-
 modules/libc/src/fildes/socket_tx_ops.c | 73 +++++++++++++++++++++++--
 3 files changed, 135 insertions(+), 12 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index f1385f7..a3f2423 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -253,6 +254,36 @@ do_write(int fildes, const void* buf, size_t nbyte,
     return pos - beg;
 }
 
+/* Writes the complete buffer, even to files in non-blocking mode. During
+ * commit, there's no way of reporting a partial write to the user. */
+static void
+do_write_all(int fildes, const void* buf, size_t nbyte,
+             struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+    const uint8_t* end = pos + nbyte;
+
+    while (true) {
+
+        ssize_t res = do_write(fildes, pos, end - pos, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+        if (res >= 0) {
+            pos += res;
+            if (pos == end) {
+                return;
+            }
+        }
+
+        struct pollfd pollfd = {
+            .fd = fildes,
+            .events = POLLOUT
+        };
+        poll(&pollfd, 1, -1);
+    }
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -304,9 +335,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
     if (seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 seekbuf_tx->wrbuf + seekbuf_tx->wrtab[cookie].bufoff,
-                 seekbuf_tx->wrtab[cookie].nbyte, error);
+        do_write_all(fildes,
+                     seekbuf_tx->wrbuf + seekbuf_tx->wrtab[cookie].bufoff,
+                     seekbuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index bf99333..44e20f8 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -254,6 +255,36 @@ do_write(int fildes, const void* buf, size_t nbyte,
     return pos - beg;
 }
 
+/* Writes the complete buffer, even to files in non-blocking mode. During
+ * commit, there's no way of reporting a partial write to the user. */
+static void
+do_write_all(int fildes, const void* buf, size_t nbyte,
+             struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+    const uint8_t* end = pos + nbyte;
+
+    while (true) {
+
+        ssize_t res = do_write(fildes, pos, end - pos, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+        if (res >= 0) {
+            pos += res;
+            if (pos == end) {
+                return;
+            }
+        }
+
+        struct pollfd pollfd = {
+            .fd = fildes,
+            .events = POLLOUT
+        };
+        poll(&pollfd, 1, -1);
+    }
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -305,9 +336,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct pipebuf_tx* pipebuf_tx = self->pipebuf_tx;
 
     if (pipebuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 pipebuf_tx->wrbuf + pipebuf_tx->wrtab[cookie].bufoff,
-                 pipebuf_tx->wrtab[cookie].nbyte, error);
+        do_write_all(fildes,
+                     pipebuf_tx->wrbuf + pipebuf_tx->wrtab[cookie].bufoff,
+                     pipebuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 541a636..276f5af 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -380,6 +381,36 @@ do_send(int sockfd, const void* buffer, size_t length, int flags,
     return pos - beg;
 }
 
+/* Sends the complete buffer, even to files in non-blocking mode. During
+ * commit, there's no way of reporting a partial write to the user. */
+static void
+do_send_all(int sockfd, const void* buffer, size_t length, int flags,
+            struct picotm_error* error)
+{
+    const uint8_t* pos = buffer;
+    const uint8_t* end = pos + length;
+
+    while (true) {
+
+        ssize_t res = do_send(sockfd, pos, end - pos, flags, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+        if (res >= 0) {
+            pos += res;
+            if (pos == end) {
+                return;
+            }
+        }
+
+        struct pollfd pollfd = {
+            .fd = sockfd,
+            .events = POLLOUT
+        };
+        poll(&pollfd, 1, -1);
+    }
+}
+
 static ssize_t
 send_exec(struct file_tx* base,
           int sockfd, const void* buffer, size_t length, int flags,
@@ -442,9 +473,9 @@ send_apply(struct file_tx* base, int sockfd, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_send(sockfd,
-                sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                sockbuf_tx->wrtab[cookie].nbyte, flags, error);
+        do_send_all(sockfd,
+                    sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
+                    sockbuf_tx->wrtab[cookie].nbyte, flags, error);
         if (picotm_error_is_set(error)) {
             return;
         }
@@ -505,6 +536,36 @@ do_write(int fildes, const void* buf, size_t nbyte,
     return pos - beg;
 }
 
+/* Writes the complete buffer, even to files in non-blocking mode. During
+ * commit, there's no way of reporting a partial write to the user. */
+static void
+do_write_all(int fildes, const void* buf, size_t nbyte,
+             struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+    const uint8_t* end = pos + nbyte;
+
+    while (true) {
+
+        ssize_t res = do_write(fildes, pos, end - pos, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+        if (res >= 0) {
+            pos += res;
+            if (pos == end) {
+                return;
+            }
+        }
+
+        struct pollfd pollfd = {
+            .fd = fildes,
+            .events = POLLOUT
+        };
+        poll(&pollfd, 1, -1);
+    }
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -554,9 +615,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                 sockbuf_tx->wrtab[cookie].nbyte, error);
+        do_write_all(fildes,
+                     sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
+                     sockbuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
-- 
2.43.0


From 466707122ceb5d51463584c996cb93514c8fcc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:33 +0000
Subject: [PATCH 57/75] fix: libc: Send messages without content

---
 modules/libc/src/fildes/socket_tx_ops.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 276f5af..7fcc000 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -361,7 +361,8 @@ do_send(int sockfd, const void* buffer, size_t length, int flags,
     const uint8_t* beg = pos;
     const uint8_t* end = beg + length;
 
-    while (pos < end) {
+    /* There can be messages without content. */
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(send(sockfd, pos, end - pos, flags));
         if (res < 0) {
@@ -376,7 +377,7 @@ do_send(int sockfd, const void* buffer, size_t length, int flags,
         }
 
         pos += res;
-    }
+    } while (pos < end);
 
     return pos - beg;
 }
@@ -516,7 +517,8 @@ do_write(int fildes, const void* buf, size_t nbyte,
     const uint8_t* beg = pos;
     const uint8_t* end = beg + nbyte;
 
-    while (pos < end) {
+    /* There can be messages without content. */
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(write(fildes, pos, end - pos));
         if (res < 0) {
@@ -531,7 +533,7 @@ do_write(int fildes, const void* buf, size_t nbyte,
         }
 
         pos += res;
-    }
+    } while (pos < end);
 
     return pos - beg;
 }
-- 
2.43.0


From 01efc67d62e78499d832ca6f0558dc34969e1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 58/75] fix: libc: Detect missing write access of FIFOs and
 devices

---
 modules/libc/src/fildes/chrdev_tx_ops.c | 12 ++++++++++++
 modules/libc/src/fildes/fifo_tx_ops.c   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index a3f2423..d5098db 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -315,6 +315,18 @@ write_exec(struct file_tx* base,
         }
     } else {
 
+        /* Detect files without write access now; it's too late for
+         * reporting the error when applying the write. */
+        int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+        if (flags < 0) {
+            picotm_error_set_errno(error, errno);
+            return -1;
+        }
+        if ((flags & O_ACCMODE) == O_RDONLY) {
+            picotm_error_set_errno(error, EBADF);
+            return -1;
+        }
+
         /* Register write data */
         *cookie = seekbuf_tx_append_to_writeset(seekbuf_tx, nbyte, 0, buf,
                                                 error);
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 44e20f8..49142fb 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -316,6 +316,18 @@ write_exec(struct file_tx* base,
         }
     } else {
 
+        /* Detect files without write access now; it's too late for
+         * reporting the error when applying the write. */
+        int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+        if (flags < 0) {
+            picotm_error_set_errno(error, errno);
+            return -1;
+        }
+        if ((flags & O_ACCMODE) == O_RDONLY) {
+            picotm_error_set_errno(error, EBADF);
+            return -1;
+        }
+
         /* Register write data */
         *cookie = pipebuf_tx_append_to_writeset(pipebuf_tx, nbyte, 0,
                                                 buf, error);
-- 
2.43.0


From 37b3a020fb6c43d4edc5b014077110392e8d42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 59/75] fix: libc: Don't follow symbolic links in lstat_tx()

---
 modules/libc/src/fildes/fildes_tx.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 682d528..7550a88 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2225,35 +2225,24 @@ int
 fildes_tx_exec_lstat(struct fildes_tx* self, const char* path, struct stat* buf,
                      struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    /* Don't resolve symbolic links; the call refers to the link itself */
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = lstat(real_path, buf);
+    int res = lstat(abs_path, buf);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_lstat;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        goto err_allocator_module_free;
-    }
+    free(abs_path);
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
 err_lstat:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    free(abs_path);
     return -1;
 }
 
-- 
2.43.0


From 4baaa5eafeff38656e4c35a5d90860a446029b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 60/75] fix: libc: Don't remove the target of symbolic links in
 unlink_tx()

---
 modules/libc/src/fildes/fildes_tx.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 7550a88..2a835b3 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -3217,34 +3217,24 @@ int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
                       struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    /* Don't resolve symbolic links; the call refers to the link itself */
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = unlink(real_path);
+    int res = unlink(abs_path);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_unlink;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        picotm_error_mark_as_non_recoverable(error);
-        goto err;
-    }
+    free(abs_path);
 
     return res;
 
 err_unlink:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
-err:
+    free(abs_path);
     return -1;
 }
 
-- 
2.43.0


From bcdff9afc599cda1e07648a076532362ab3c5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 61/75] fix: libc: Don't resolve empty paths to the working
 directory

---
 modules/libc/src/fildes/fildes_tx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 2a835b3..cf66e40 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1208,7 +1208,8 @@ absolute_path(const char* path, struct picotm_error* error)
 {
     assert(path);
 
-    if (is_absolute_path(path)) {
+    /* The empty path is not the working directory; it's always invalid. */
+    if (is_absolute_path(path) || !path[0]) {
         char* abs_path = strdup(path);
         if (!abs_path) {
             picotm_error_set_errno(error, errno);
-- 
2.43.0


From 6279a496cb8600692464122e9ed99ac84a832fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 62/75] fix: libc: Support buffers allocated by getcwd_tx()

---
 modules/libc/src/unistd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 71c8aa8..4c5ae0b 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -182,7 +182,9 @@ PICOTM_EXPORT
 char*
 getcwd_tx(char* buf, size_t size)
 {
-    privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+    if (buf) {
+        privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+    }
     return getcwd_tm(buf, size);
 }
 #endif
-- 
2.43.0


From e205e6a5b6db72244f732179f832865315ae925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 63/75] fix: libc: Acquire buffer for writing in getcwd_tx()

---
 modules/libc/src/unistd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 4c5ae0b..6f43b2a 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -183,7 +183,7 @@ char*
 getcwd_tx(char* buf, size_t size)
 {
     if (buf) {
-        privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+        privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_STORE);
     }
     return getcwd_tm(buf, size);
 }
-- 
2.43.0


From 4e699709148bafb1a916bf3fdf5db732697356a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 64/75] fix: libc: Preserve base object of newlocale_tx()
 during roll-back

A successful call to newlocale() modifies or releases its base
locale. Rolling back the transaction then left the program with
an invalid base object. Create the new locale from a copy of the
base and release the base during the commit.
---
 modules/libc/src/locale/locale_event.h |  1 +
 modules/libc/src/locale/locale_tx.c    | 28 ++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/locale/locale_event.h b/modules/libc/src/locale/locale_event.h
index a9e7718..74ba012 100644
--- a/modules/libc/src/locale/locale_event.h
+++ b/modules/libc/src/locale/locale_event.h
@@ -69,6 +69,7 @@ struct locale_event {
 #if defined(PICOTM_LIBC_HAVE_NEWLOCALE) && PICOTM_LIBC_HAVE_NEWLOCALE
         struct {
             locale_t result;
+            locale_t base;
         } newlocale;
 #endif
         struct {
diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 156ba61..11a6ea2 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -528,16 +528,34 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
         return (locale_t)0;
     }
 
+    /* A successful call to newlocale() consumes the base object. The
+     * new locale is created from a copy, so that the base object can
+     * be restored during a roll-back. It's released during the commit. */
+
+    locale_t basecopy = (locale_t)0;
+
+    if (base != (locale_t)0) {
+        basecopy = duplocale(base);
+        if (basecopy == (locale_t)0) {
+            picotm_error_set_errno(error, errno);
+            return (locale_t)0;
+        }
+    }
+
     /* create a new locale */
 
-    locale_t locobj = newlocale(category_mask, locale, base);
+    locale_t locobj = newlocale(category_mask, locale, basecopy);
     if (locobj == (locale_t)0) {
         picotm_error_set_errno(error, errno);
+        if (basecopy != (locale_t)0) {
+            freelocale(basecopy);
+        }
         return (locale_t)0;
     }
 
     struct locale_event arg;
     arg.arg.newlocale.result = locobj;
+    arg.arg.newlocale.base = base;
 
     locale_log_append(self->log, LOCALE_OP_NEWLOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
@@ -554,7 +572,13 @@ err_locale_log_append:
 static void
 apply_newlocale(struct locale_tx* self, const struct locale_event* arg,
                 struct picotm_error* error)
-{ }
+{
+    assert(arg);
+
+    if (arg->arg.newlocale.base != (locale_t)0) {
+        freelocale(arg->arg.newlocale.base);
+    }
+}
 
 static void
 undo_newlocale(struct locale_tx* self, const struct locale_event* arg,
-- 
2.43.0


From fb586db65f2c27ea4f69532b59fe37ab1dbc4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 65/75] fix: libc: Respect full error recovery for blocking I/O

With PICOTM_LIBC_ERROR_RECOVERY_FULL, the libc module recovers from all
errors. Non-blocking I/O still returned EAGAIN and EWOULDBLOCK to the
user.
---
 modules/libc/src/fildes/fildes_tx.c | 49 +++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index cf66e40..43b0f4d 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -36,6 +36,7 @@
 #include "cwd/module.h"
 #include "dir.h"
 #include "dir_tx.h"
+#include "error/module.h"
 #include "fifo.h"
 #include "fifo_tx.h"
 #include "fildes.h"
@@ -1197,6 +1198,30 @@ fildes_path(int fildes, struct picotm_error* error)
     return path;
 }
 
+/* The I/O functions return errors that signal blocking I/O directly to the
+ * user. With full error recovery, these abort the transaction as well. */
+static void
+recover_from_result(ssize_t res, struct picotm_error* error)
+{
+    if (res >= 0) {
+        return;
+    }
+
+    int errno_code = errno;
+
+    enum picotm_libc_error_recovery recovery =
+        error_module_get_error_recovery(error);
+    if (picotm_error_is_set(error)) {
+        return;
+    }
+
+    errno = errno_code;
+
+    if (recovery == PICOTM_LIBC_ERROR_RECOVERY_FULL) {
+        picotm_error_set_errno(error, errno_code);
+    }
+}
+
 static bool
 is_absolute_path(const char* path)
 {
@@ -2630,6 +2655,10 @@ fildes_tx_exec_pread(struct fildes_tx* self, int fildes, void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_result(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* inject event */
     if (cookie >= 0) {
@@ -2695,6 +2724,10 @@ fildes_tx_exec_pwrite(struct fildes_tx* self, int fildes, const void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_result(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -2759,6 +2792,10 @@ fildes_tx_exec_read(struct fildes_tx* self, int fildes, void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_result(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -2824,6 +2861,10 @@ fildes_tx_exec_recv(struct fildes_tx* self, int sockfd, void* buffer,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_result(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -2969,6 +3010,10 @@ fildes_tx_exec_send(struct fildes_tx* self, int sockfd, const void* buffer,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_result(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -3265,6 +3310,10 @@ fildes_tx_exec_write(struct fildes_tx* self, int fildes, const void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_result(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
-- 
2.43.0


From 1eb373c2fb7a2b7a11b08232c573ddbf0c9740a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 66/75] fix: ptrdata: Provide shared data to threads without
 module state

ptr_get_shared_data() and ptr_clear_shared_data() ignored shared data
if the calling thread had not used the module before.
---
 modules/ptrdata/src/module.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/ptrdata/src/module.c b/modules/ptrdata/src/module.c
index b0c1c6e..a4d2fd4 100644
--- a/modules/ptrdata/src/module.c
+++ b/modules/ptrdata/src/module.c
@@ -169,11 +169,9 @@ void
 ptrdata_module_clear_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return;
-    } else if (!module) {
-        return;
     }
     ptrdata_clear_shared_data(module->global, ptr, error);
 }
@@ -182,11 +180,9 @@ void*
 ptrdata_module_get_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return NULL;
-    } else if (!module) {
-        return NULL;
     }
     return ptrdata_get_shared_data(module->global, ptr, error);
 }
-- 
2.43.0


From 62fbb2bd22942b0f72b72f98b8134aae7ce6ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 67/75] fix: libc: Remember file-descriptor flags for undoing
 F_SETFD

The undo function of fcntl_tx() restored the flags from an uninitialized
field.
---
 modules/libc/src/fildes/fd_tx.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index a2d7d17..b15cd46 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -537,6 +537,7 @@ fd_tx_fcntl_exec(struct fd_tx* self,
     }
 
     int res = -1;
+    union fcntl_arg oldarg;
 
     switch (cmd) {
         case F_SETFD:
@@ -544,6 +545,11 @@ fd_tx_fcntl_exec(struct fd_tx* self,
                 picotm_error_set_revocable(error);
                 break;
             }
+            /* remember previous flags for roll-back */
+            oldarg.arg0 = fd_getfd(self->fd, error);
+            if (picotm_error_is_set(error)) {
+                break;
+            }
             res = fd_setfd(self->fd, arg->arg0, error);
             if (picotm_error_is_set(error)) {
                 break;
@@ -570,7 +576,8 @@ fd_tx_fcntl_exec(struct fd_tx* self,
 
     if (cookie) {
         *cookie = fcntloptab_append(&self->fcntltab,
-                                    &self->fcntltablen, cmd, arg, NULL,
+                                    &self->fcntltablen, cmd, arg,
+                                    cmd == F_SETFD ? &oldarg : NULL,
                                     error);
         if (picotm_error_is_set(error)) {
             goto err_cmd;
-- 
2.43.0


From b85c725662055b6d5c9b7f5939fb3ce7b8974853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 68/75] fix: libc: Handle errors when acquiring the state of a
 locale object

---
 modules/libc/src/locale/locale_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 11a6ea2..53203fa 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -186,6 +186,10 @@ acquire_locale_state(locale_t locobj, struct locale* global,
         }
         picotm_spinlock_unlock(&global->locale_state_lock);
 
+        if (picotm_error_is_set(error)) {
+            return NULL;
+        }
+
         lstate = malloc(sizeof(*lstate));
         if (!lstate) {
             picotm_error_set_errno(error, ENOMEM);
@@ -208,6 +212,7 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     /* not reachable */
 
 err_ptr_test_and_set_shared_data:
+    --lstate->ref_count;
     locale_state_uninit(lstate);
     free(lstate);
     return NULL;
-- 
2.43.0


From 5bb2501a1427cbb6ea7f09e435d90e917aa68845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 69/75] fix: txlib: Revert operation if its event cannot be
 logged

---
 modules/txlib/src/txlib_tx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/txlib/src/txlib_tx.c b/modules/txlib/src/txlib_tx.c
index d8c5e89..dcb4d58 100644
--- a/modules/txlib/src/txlib_tx.c
+++ b/modules/txlib/src/txlib_tx.c
@@ -301,6 +301,13 @@ txlib_tx_append_events3(struct txlib_tx* self, size_t nevents,
 
         picotm_append_event(self->module, 0, beg - self->event, error);
         if (picotm_error_is_set(error)) {
+            /* The event's operation has already been executed, but
+             * it's not in the event log; so revert it here. */
+            struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+            txlib_event_undo(beg, &undo_error);
+            if (picotm_error_is_set(&undo_error)) {
+                picotm_error_mark_as_non_recoverable(error);
+            }
             return;
         }
     }
-- 
2.43.0


From d173e9e05108b238c79d4f9d8f02f40e73bdb9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 70/75] fix: libc: Revert file-descriptor operations if they
 cannot be logged

---
 modules/libc/src/fildes/dir_tx_ops.c     |  3 +++
 modules/libc/src/fildes/fd_tx.c          | 10 ++++++++-
 modules/libc/src/fildes/fildes_tx.c      | 27 +++++++++++++++++++++++-
 modules/libc/src/fildes/regfile_tx_ops.c |  3 +++
 4 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index b814d27..8f2577d 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -105,6 +105,9 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
+        if (fchmod(fildes, old_mode) < 0) {
+            picotm_error_mark_as_non_recoverable(error);
+        }
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index b15cd46..8192037 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -580,12 +580,20 @@ fd_tx_fcntl_exec(struct fd_tx* self,
                                     cmd == F_SETFD ? &oldarg : NULL,
                                     error);
         if (picotm_error_is_set(error)) {
-            goto err_cmd;
+            goto err_fcntloptab_append;
         }
     }
 
     return res;
 
+err_fcntloptab_append:
+    if (cmd == F_SETFD) {
+        struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+        fd_setfd(self->fd, oldarg.arg0, &undo_error);
+        if (picotm_error_is_set(&undo_error)) {
+            picotm_error_mark_as_non_recoverable(error);
+        }
+    }
 err_cmd:
     return -1;
 }
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 43b0f4d..5384ea4 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1347,6 +1347,21 @@ err_fstat:
     free(path);
 }
 
+/* Reverts an operation that has been executed, but could not be added
+ * to the event log.
+ */
+static void
+revert_event(struct fildes_tx* self, enum fildes_op op, int fildes,
+             int cookie, struct picotm_error* error)
+{
+    struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+
+    fildes_tx_undo_event(self, op, fildes, cookie, &undo_error);
+    if (picotm_error_is_set(&undo_error)) {
+        picotm_error_mark_as_non_recoverable(error);
+    }
+}
+
 /*
  * accept()
  */
@@ -1389,11 +1404,12 @@ fildes_tx_exec_accept(struct fildes_tx* self, int sockfd,
     /* Inject event */
     fildes_log_append(self->log, FILDES_OP_ACCEPT, connfd, cookie, error);
     if (picotm_error_is_set(error)) {
-        return -1;
+        goto err_fildes_log_append;
     }
 
     return connfd;
 
+err_fildes_log_append:
 err_add_new_fd_tx_with_ref:
     if (TEMP_FAILURE_RETRY(close(connfd)) < 0) {
         perror("close");
@@ -1831,6 +1847,7 @@ fildes_tx_exec_fchmod(struct fildes_tx* self, int fildes, mode_t mode,
     if (cookie >= 0) {
         fildes_log_append(self->log, FILDES_OP_FCHMOD, fildes, cookie, error);
         if (picotm_error_is_set(error)) {
+            revert_event(self, FILDES_OP_FCHMOD, fildes, cookie, error);
             return -1;
         }
     }
@@ -1905,6 +1922,7 @@ fildes_tx_exec_fcntl(struct fildes_tx* self, int fildes, int cmd,
     if (cookie >= 0) {
         fildes_log_append(self->log, FILDES_OP_FCNTL, fildes, cookie, error);
         if (picotm_error_is_set(error)) {
+            revert_event(self, FILDES_OP_FCNTL, fildes, cookie, error);
             return -1;
         }
     }
@@ -2404,6 +2422,7 @@ fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
 
 err_fildes_log_append:
     unlink(abs_path);
+    TEMP_FAILURE_RETRY(close(fildes));
 err_mkstemp:
     free(abs_path);
     return -1;
@@ -2583,6 +2602,12 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
                                   &self->pipeoptablen, pipefd,
                                   error);
     if (picotm_error_is_set(error)) {
+        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+            perror("close");
+        }
+        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+            perror("close");
+        }
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index af2a177..62506ea 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -110,6 +110,9 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
+        if (fchmod(fildes, old_mode) < 0) {
+            picotm_error_mark_as_non_recoverable(error);
+        }
         return -1;
     }
 
-- 
2.43.0


From 463a282d74095de3f879ccd0cb74d41e8daf2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 71/75] fix: libc: Restore current locale if uselocale_tx()
 cannot be logged

---
 modules/libc/src/locale/locale_tx.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 53203fa..15ac40f 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -791,10 +791,19 @@ uselocale_wr_exec(struct locale_tx* self, locale_t newloc,
 
     locale_log_append(self->log, LOCALE_OP_USELOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+        goto err_locale_log_append;
     }
 
     return oldloc;
+
+err_locale_log_append:
+    if (uselocale(oldloc) == (locale_t)0) {
+        /* We keep the original error code. We mark the error
+         * as non-recoverable, because the function's clean-up
+         * block failed. */
+        picotm_error_mark_as_non_recoverable(error);
+    }
+    return (locale_t)0;
 }
 
 locale_t
-- 
2.43.0


From 1b20a31beb8c8d7d7ba35fe97103c53794f4c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 72/75] fix: Return from picotm_irrevocable() in irrevocable
 transactions

The function restarted the transaction even if it was irrevocable
already. Transactions that call picotm_irrevocable() or dup2_tx()
unconditionally were restarted forever.
---
 src/picotm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/picotm.c b/src/picotm.c
index 0138805..a1e4d41 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -323,7 +323,12 @@ PICOTM_EXPORT
 void
 picotm_irrevocable()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_IRREVOCABLE);
+    struct picotm_tx* tx = get_non_null_tx();
+
+    if (picotm_tx_is_irrevocable(tx)) {
+        return;
+    }
+    restart_tx(tx, PICOTM_MODE_IRREVOCABLE);
 }
 
 PICOTM_EXPORT
-- 
2.43.0


From 7fc823c9929d8641b9a258341099a047eae8e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 73/75] fix: libc: Release lock of locale objects at the end of
 a transaction

A transaction's reader or writer lock on a locale object was only
cleaned up with the object's state. If another transaction referred
to the same object, the lock was left behind and the other transaction
conflicted with one that had already finished.
---
 modules/libc/src/locale/locale_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 15ac40f..52b5300 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -306,6 +306,8 @@ release_locale_state_tx(struct locale_state_tx* lstate_tx,
         return;
     }
 
+    picotm_rwstate_unlock(&lstate_tx->rwstate, &lstate_tx->lstate->rwlock);
+
     release_locale_state(lstate_tx->locobj, lstate_tx->lstate, global, error);
     if (picotm_error_is_set(error)) {
         return;
-- 
2.43.0


From e1db1dd5be8768f145a26d7d0d652d29bc40557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 74/75] fix: libm: Don't save status flags if the environment
 has been saved

The floating-point environment contains the status flags. Saving them
separately at a later time made the roll-back restore the flags of that
time.
---
 modules/libm/src/fpu_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/libm/src/fpu_tx.c b/modules/libm/src/fpu_tx.c
index 9fa8dd4..9d9c243 100644
--- a/modules/libm/src/fpu_tx.c
+++ b/modules/libm/src/fpu_tx.c
@@ -97,6 +97,8 @@ fpu_tx_save_fexcept(struct fpu_tx* self, struct picotm_error* error)
 {
     if (self->flags & FPU_TX_FLAG_FEXCEPT_SAVED) {
         return;
+    } else if (self->flags & FPU_TX_FLAG_FENV_SAVED) {
+        return; /* The saved environment contains the status flags. */
     }
 
     int res = fegetexceptflag(&self->saved_fexcept, FE_ALL_EXCEPT);
-- 
2.43.0


From 22f1c4385e146f87174778aaf0aad0dfc0fba8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 75/75] fix: Reset the lists of open and pipe operations when a
 transaction ends

The file-descriptor module never cleared its lists of open and pipe
operations while the thread kept running, so that each transaction that
opened a file or pipe made them grow.
---
 modules/libc/src/fildes/fildes_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 5384ea4..255535b 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -3586,4 +3586,8 @@ fildes_tx_finish(struct fildes_tx* self, struct picotm_error* error)
 
     /* Clear concurrency control on file-descriptor table */
     fdtab_tx_finish(&self->fdtab_tx);
+
+    /* Forget the transaction's open and pipe operations */
+    self->openoptablen = 0;
+    self->pipeoptablen = 0;
 }
-- 
2.43.0

