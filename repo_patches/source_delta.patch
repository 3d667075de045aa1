From 507ea1a1e38fd057dfdb51628a0148823f3f7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 01/33] fix: sized RMA routines pass the element size in bytes

The active-message transport uses it as the transfer length; bits made it
read and send eight times too much.
---
 maint/rma_sizedef.txt | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/maint/rma_sizedef.txt b/maint/rma_sizedef.txt
index da5992c..18adb8f 100644
--- a/maint/rma_sizedef.txt
+++ b/maint/rma_sizedef.txt
@@ -1,6 +1,6 @@
-# SIZE, SIZENAME, MPITYPE
-8, 8, MPI_UINT8_T
-16, 16, MPI_UINT16_T
-32, 32, MPI_UINT32_T
-64, 64, MPI_UINT64_T
-128, 128, MPI_C_DOUBLE_COMPLEX
\ No newline at end of file
+# SIZE (in bytes), SIZENAME, MPITYPE
+1, 8, MPI_UINT8_T
+2, 16, MPI_UINT16_T
+4, 32, MPI_UINT32_T
+8, 64, MPI_UINT64_T
+16, 128, MPI_C_DOUBLE_COMPLEX
\ No newline at end of file
-- 
2.43.0


From ac235d953601b37ad6023db24094f25c6430e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 02/33] fix: quiet and fence on a created context also flush
 its active messages

---
 src/internal/order_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..45435b6 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM ordered delivery (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -69,6 +71,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM completion (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From ffb84c3b954561f96847777c14ac447a0357bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 03/33] fix: quiet and fence skip memory spaces that are not
 attached

---
 src/internal/order_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 45435b6..26241ef 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -54,10 +54,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* No window exists unless the space is attached */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
@@ -87,10 +89,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* No window exists unless the space is attached */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-- 
2.43.0


From 2b3871ac001a7d531053f38dbd37c89414620e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 04/33] fix: barriers complete default-context operations on
 attached spaces

---
 src/internal/coll_activeset_impl.h |  2 ++
 src/internal/coll_impl.h           | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..ffb3414 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -119,6 +119,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
+    coll_flush_spaces();
+
     /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..d19cd07 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -6,11 +6,30 @@
 #ifndef INTERNAL_COLL_IMPL_H
 #define INTERNAL_COLL_IMPL_H
 
+#include "oshmpi_util.h"
+
+/* Complete the default-context operations on all attached spaces. */
+OSHMPI_STATIC_INLINE_PREFIX void coll_flush_spaces(void)
+{
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_space_t *space, *tmp;
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (space->default_ictx.win != MPI_WIN_NULL) {
+            OSHMPI_CALLMPI(MPI_Win_flush_all(space->default_ictx.win));
+            OSHMPI_CALLMPI(MPI_Win_sync(space->default_ictx.win));
+        }
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+#endif
+}
+
 /* Block until all PEs arrive at the barrier and all local updates
  * and remote memory updates on the default context are completed. */
-#include "oshmpi_util.h"
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
 {
+    coll_flush_spaces();
+
     /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-- 
2.43.0


From 0294a488bf6c353a27f2bb4ef74e861a03e1e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 05/33] fix: active-set barrier completes active messages to
 PEs outside the set

---
 src/internal/coll_activeset_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index ffb3414..4489a43 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -129,8 +129,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
     OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
 #endif
 
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure AM completion (e.g., AM AMOs) on all PEs, also outside the active set */
+    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 91037fa37425e74d79ae6ba5bb00bacae395f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 06/33] fix: clear_lock completes outstanding operations before
 the release

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..505c54f 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -103,6 +103,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     lock_next_disp = lock_last_disp + sizeof(int);
 
+    /* Complete all operations issued in the critical region before releasing the lock */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
     /* Release the lock in root process if I am the last one holding the lock */
     OSHMPI_CALLMPI(MPI_Compare_and_swap
                    (&zero, &myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,
-- 
2.43.0


From d5c428259343618baa7c2be960a0bc1fefd1d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 07/33] fix: active-set broadcast root is relative to the
 active set

---
 src/internal/coll_activeset_impl.h | 46 ++++--------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 4489a43..564c79a 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -160,53 +160,19 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
-    coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
+    /* PE_root is the zero-based ordinal of the root with respect to the active set */
+    OSHMPI_ASSERT(PE_root >= 0 && PE_root < PE_size);
+    const int root_wpe = PE_start + PE_root * (1 << logPE_stride);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
+    OSHMPI_am_progress_mpi_bcast(root_wpe == OSHMPI_global.team_world_my_pe ?
+                                 (void *) source : dest, nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From 7e1e89a262206cf884120ae6e043c5ad9d283c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 08/33] fix: finalize completes outstanding operations before
 the implicit barrier

---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..6d0377f 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -860,8 +860,8 @@ static void finalize_impl(void)
 
     /* Implicit global barrier is required to ensure
      * that pending communications are completed and that no resources
-     * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
+     * are released until all PEs have entered shmem_finalize. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
 
     OSHMPI_coll_finalize();
-- 
2.43.0


From 7b3df5dd7aa78a00f7d35c7345895be0378d76e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 09/33] fix: the whole allocatable heap is a valid remote
 target

---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 6d0377f..1b3a215 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -181,7 +181,7 @@ static void attach_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -267,7 +267,7 @@ static void initialize_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From c3e4319e75f680a4ca8a7093c598a83a3a36ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 10/33] fix: an exhausted symmetric heap yields NULL instead of
 non-symmetric memory

---
 src/internal/setup_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 1b3a215..9e3d2c7 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -190,6 +190,8 @@ static void attach_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never grow beyond the symmetric region */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -276,6 +278,8 @@ static void initialize_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never grow beyond the symmetric region */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From 4d1dd7c56cdcec7b1725206e0e87c9b170200842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 11/33] fix: realloc synchronises before it moves or frees the
 old block

---
 src/internal/mem_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..82bf43d 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -55,6 +55,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
     if (size == 0 && ptr == NULL)
         return ptr;
 
+    /* All PEs have to be done with the old block before it is moved or freed */
+    if (ptr != NULL)
+        OSHMPI_barrier_all();
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From 4fb293c1bd45bbbce146839cc3948aba562bab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 12/33] fix: realloc to size zero frees the block, calloc of
 zero elements returns NULL

---
 src/internal/mem_impl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 82bf43d..be6ce05 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -52,8 +52,11 @@ void *OSHMPI_realloc(void *ptr, size_t size)
 {
     void *rptr = NULL;
 
-    if (size == 0 && ptr == NULL)
-        return ptr;
+    if (size == 0) {
+        if (ptr != NULL)
+            OSHMPI_free(ptr);
+        return NULL;
+    }
 
     /* All PEs have to be done with the old block before it is moved or freed */
     if (ptr != NULL)
@@ -85,7 +88,7 @@ void *OSHMPI_calloc(size_t count, size_t size)
 {
     void *ptr = NULL;
 
-    if (size == 0)
+    if (count == 0 || size == 0)
         return ptr;
 
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From 1513b8d903d49ba269fbbde5dad18013024b7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 13/33] fix: memory pool rejects empty and oversized requests

---
 src/internal/util/mem_pool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..27a6512 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -42,6 +42,9 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
     int off = 0, navail = 0;
     void *ptr = NULL;
 
+    if (size == 0 || size > mem_pool->size)
+        return NULL;
+
     size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
     int nalloc = aligned_sz / mem_pool->chunk_size;
 
-- 
2.43.0


From 1412ec05a499294f1138a49044ae4a4e0607e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 14/33] fix: active message tags wrap around at the MPI tag
 limit

---
 src/internal/am_impl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..e4ae8dd 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,9 +14,10 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
-    OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
-    return tag;
+    /* Wrap around at the upper bound; tags of completed operations can be reused. */
+    unsigned int range = (unsigned int) OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START;
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off);
+    return (int) (off % range) + OSHMPI_AM_PKT_PTAG_START;
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)),
-- 
2.43.0


From fe2614b10d6f767020c2d7534e4b98f5062399a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 15/33] fix: parse size values in double precision

---
 src/include/oshmpi_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 0d55ac3..ac64cc8 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -147,7 +147,7 @@ OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
     double val;
     char *e;
 
-    val = (double) strtof(s, &e);
+    val = strtod(s, &e);
     if (e == NULL || *e == '\0')
         return val;
 
-- 
2.43.0


From 67b446d9f03ecf17bcea954613608a2039b4cba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 16/33] fix: SHMEM_TEAM_SHARED contains only PEs that share
 memory

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 9e3d2c7..9eb0cbd 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -811,9 +811,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From d2d96182352bf9009bf6e38f2585bfaa2f475b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 17/33] fix: team_translate_pe returns -1 for a PE outside the
 source team

---
 src/shmem/team.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..09c85f4 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -75,6 +75,10 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
         return -1;
     }
 
+    if (src_pe < 0 || src_pe >= shmem_team_n_pes(src_team)) {
+        return -1;
+    }
+
     if (src_team == SHMEM_TEAM_WORLD) {
         src_group = OSHMPI_global.team_world_group;
     } else if (src_team == SHMEM_TEAM_SHARED) {
-- 
2.43.0


From ca9ce49aeced7bbb25ddb53262f6e87d06e29777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 18/33] fix: team split serves active messages until all PEs
 have arrived

---
 src/internal/team_impl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 048c83a..9bf08d2 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -47,6 +47,8 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team
     MPI_Comm new_comm;
     MPI_Group new_group;
 
+    /* MPI_Comm_split blocks without active message progress, thus wait for all PEs first */
+    OSHMPI_am_progress_mpi_barrier(team->comm);
     OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
-- 
2.43.0


From 88c3379cd7152b9f6a2a9b9516ef36bacc1d41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 19/33] fix: space attach and detach serve active messages
 until all PEs have arrived

---
 src/internal/space_impl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..7ba5997 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -294,6 +294,9 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
                            symm_flag, space_attach_idx);
     space_attach_idx++;
 
+    /* Window creation blocks without active message progress, thus wait for all PEs first */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     /* Create internal window */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base,
@@ -335,8 +338,11 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
 
+    /* Complete all operations on the space. Window destruction blocks without active
+     * message progress, thus wait for all PEs first. */
+    OSHMPI_barrier_all();
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-- 
2.43.0


From cda1c2bfae5c30311254f0aad0d10b51eb20899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 20/33] fix: active-set communicator creation serves active
 messages until all PEs have arrived

---
 src/include/oshmpi_impl.h          |  1 +
 src/internal/coll_activeset_impl.h | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..dbd151f 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -34,6 +34,7 @@
 #define OSHMPI_MPI_COLL64_T MPI_UINT64_T
 
 #define OSHMPI_LOCK_MSG_TAG 999 /* For lock routines */
+#define OSHMPI_COLL_SYNC_MSG_TAG 998    /* For creation of active-set communicators */
 
 #define OSHMPI_DEFAULT_THREAD_SAFETY SHMEM_THREAD_SINGLE
 
diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 564c79a..9c00c57 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -70,6 +70,27 @@ OSHMPI_STATIC_INLINE_PREFIX int coll_find_comm_cache(int PE_start, int logPE_str
     return found;
 }
 
+/* Wait for all PEs of a group for which no communicator exists yet, while making active
+ * message progress. */
+OSHMPI_STATIC_INLINE_PREFIX void coll_sync_pes(int PE_size, const int *pe_list)
+{
+    MPI_Comm comm = OSHMPI_global.team_world_comm;
+    int i;
+
+    if (pe_list[0] == OSHMPI_global.team_world_my_pe) {
+        for (i = 1; i < PE_size; i++)
+            OSHMPI_am_progress_mpi_recv(NULL, 0, MPI_BYTE, pe_list[i], OSHMPI_COLL_SYNC_MSG_TAG,
+                                        comm, MPI_STATUS_IGNORE);
+        for (i = 1; i < PE_size; i++)
+            OSHMPI_am_progress_mpi_send(NULL, 0, MPI_BYTE, pe_list[i], OSHMPI_COLL_SYNC_MSG_TAG,
+                                        comm);
+    } else {
+        OSHMPI_am_progress_mpi_send(NULL, 0, MPI_BYTE, pe_list[0], OSHMPI_COLL_SYNC_MSG_TAG, comm);
+        OSHMPI_am_progress_mpi_recv(NULL, 0, MPI_BYTE, pe_list[0], OSHMPI_COLL_SYNC_MSG_TAG, comm,
+                                    MPI_STATUS_IGNORE);
+    }
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_stride, int PE_size,
                                                    MPI_Comm * comm)
 {
@@ -102,6 +123,9 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
     for (int i = 0; i < PE_size; i++)
         pe_list[i] = PE_start + i * pe_stride;
 
+    /* MPI_Comm_create_group blocks without active message progress */
+    coll_sync_pes(PE_size, pe_list);
+
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
     /* Only collective on the strided_group. */
-- 
2.43.0


From a4ea6d352c4db8b08c478b2aa24e86b60836e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 21/33] fix: space_calloc allocates and zeroes count times size
 bytes

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 18 ++++++++++++++++++
 src/shmemx/space.c        |  3 +--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index dbd151f..c1476bf 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -390,6 +390,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 7ba5997..c3ebc02 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -379,6 +379,24 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
     return ptr;
 }
 
+/* Collectively allocate a zeroed buffer from the space */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+
+    OSHMPI_THREAD_ENTER_CS(&space->mem_pool_cs);
+    if (size == 0 || count <= space->sobj_attr.size / size)
+        ptr = OSHMPIU_mempool_alloc(&space->mem_pool, count * size);
+    OSHMPI_THREAD_EXIT_CS(&space->mem_pool_cs);
+    if (ptr)
+        memset(ptr, 0, count * size);
+
+    OSHMPI_DBGMSG("space_calloc from space %p, count %ld, size %ld -> ptr %p, disp 0x%lx\n",
+                  space, count, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From 8dc9db7292c8724ec63fa15f4bbf65bfc1600d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 22/33] fix: space_align returns blocks with the requested
 alignment

---
 src/internal/space_impl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index c3ebc02..28e3123 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,9 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            /* Page aligned, so that every chunk of the pool is page aligned as well */
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size))
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
@@ -400,7 +402,8 @@ void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
-    return OSHMPI_space_malloc(space, OSHMPI_ALIGN(size, alignment));
+    /* Every chunk is page aligned; a larger alignment cannot be ensured on all PEs */
+    return OSHMPI_space_malloc(space, alignment <= OSHMPI_global.page_sz ? size : 0);
 }
 
 /* Collectively free a buffer from the space */
-- 
2.43.0


From d5913fd0d7574bdde233ffc608ed8ae6d9881d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 23/33] fix: initialise a new space completely before other
 threads can find it

---
 src/internal/space_impl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 28e3123..1ce8ede 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -199,11 +199,6 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPI_sobj_init_attr(&space->sobj_attr, space_config.memkind, base, size);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
 
-    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
-    LL_APPEND(OSHMPI_global.space_list.head, space);
-    OSHMPI_global.space_list.nspaces++;
-    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-
     space->ctx_list = NULL;
     space->config = space_config;
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -211,6 +206,11 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPIU_ATOMIC_FLAG_STORE(space->default_ictx.outstanding_op, 0);
 #endif
 
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_APPEND(OSHMPI_global.space_list.head, space);
+    OSHMPI_global.space_list.nspaces++;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     char space_hints[64];
     space_hints_str(space->config.hints, space_hints, 64);
 
-- 
2.43.0


From d25f4cbe0543f378fd52b3f2258377a17315d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 24/33] fix: addr_accessible covers attached memory spaces

---
 src/shmem/setup.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/shmem/setup.c b/src/shmem/setup.c
index 2e619ff..8d17852 100644
--- a/src/shmem/setup.c
+++ b/src/shmem/setup.c
@@ -71,9 +71,27 @@ int shmem_pe_accessible(int pe)
 
 int shmem_addr_accessible(const void *addr, int pe)
 {
-    return ((OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
-             OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr)) &&
-            (pe >= 0 && pe < OSHMPI_global.team_world_n_pes)) ? 1 : 0;
+    int accessible = 0;
+    OSHMPI_space_t *space, *tmp;
+
+    if (pe < 0 || pe >= OSHMPI_global.team_world_n_pes)
+        return 0;
+
+    if (OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
+        OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr))
+        return 1;
+
+    /* Attached spaces are accessible as well */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) == OSHMPI_SOBJ_SPACE_ATTACHED_HEAP
+            && OSHMPI_sobj_check_range(addr, space->sobj_attr)) {
+            accessible = 1;
+            break;
+        }
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+    return accessible;
 }
 
 void *shmem_ptr(const void *dest, int pe)
-- 
2.43.0


From e130f8f488b1db36acb96f969d57aa32448231d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 25/33] fix: shmem_team_sync failed for every team but the
 world team

---
 src/internal/coll_impl.h |  7 +++++++
 src/shmem/coll.c         | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index d19cd07..15b5f60 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -64,6 +64,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+#endif
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..fd26f34 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -13,11 +13,14 @@ void shmem_barrier_all(void)
 
 int shmem_team_sync(shmem_team_t team)
 {
-    if (team == SHMEM_TEAM_WORLD) {
-        OSHMPI_sync_all();
-        return SHMEM_SUCCESS;
-    }
-    return SHMEM_OTHER_ERR;
+    OSHMPI_team_t *team_obj;
+
+    if (team == SHMEM_TEAM_INVALID)
+        return SHMEM_OTHER_ERR;
+
+    OSHMPI_TEAM_GET_OBJ(team, team_obj);
+    OSHMPI_sync_team(team_obj);
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From d3ed80eab3a10ef1f719ebef3f4b16904b3c64c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 26/33] fix: complete outstanding operations when a context is
 destroyed

---
 src/internal/ctx_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/ctx_impl.c b/src/internal/ctx_impl.c
index 812a798..b5756b1 100644
--- a/src/internal/ctx_impl.c
+++ b/src/internal/ctx_impl.c
@@ -8,6 +8,9 @@
 
 void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx)
 {
+    /* Complete all outstanding operations on the context before it can be reused. */
+    OSHMPI_ctx_quiet((shmem_ctx_t) ctx);
+
     OSHMPIU_ATOMIC_FLAG_STORE(ctx->used_flag, 0);
 
     /* Do not free window.
-- 
2.43.0


From 3fddbf1f73821439116a5dfd325074edb67968fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 27/33] fix: keep the operation tracking flag set when another
 thread may have issued an operation

---
 src/include/oshmpi_impl.h | 9 +++++++++
 src/internal/order_impl.h | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index c1476bf..aaf5e9f 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -830,6 +830,15 @@ enum {
 #define OSHMPI_SET_OUTSTANDING_OP(ctx, completion) do {} while (0)
 #endif
 
+/* Reset the flag of outstanding operations after having completed them.
+ * With multiple threads, another thread may have issued an operation in the
+ * meantime, or may skip completion of its own operation because of the reset.
+ * Thus, the flag stays set. */
+#define OSHMPI_RESET_OUTSTANDING_FLAG(flag) do {                    \
+        if (OSHMPI_global.thread_level != SHMEM_THREAD_MULTIPLE)    \
+            OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);                     \
+        } while (0)
+
 
 OSHMPI_STATIC_INLINE_PREFIX size_t OSHMPI_get_mspace_sz(size_t bufsz)
 {
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 26241ef..0e80f6d 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -15,7 +15,7 @@
 #endif
 
 #ifdef OSHMPI_ENABLE_OP_TRACKING
-#define RESET_FLAG(flag) do {OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);} while (0)
+#define RESET_FLAG(flag) OSHMPI_RESET_OUTSTANDING_FLAG(flag)
 #else
 #define RESET_FLAG(flag) do {} while (0)
 #endif
-- 
2.43.0


From f68e65d77e08ff9ebd11041b3faeac19039c71b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 28/33] fix: keep the flag of outstanding active messages set
 when another thread may have issued one

---
 src/internal/am_impl.h     | 5 ++---
 src/internal/amo_am_impl.h | 4 ++--
 src/internal/rma_am_impl.h | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index e4ae8dd..0cd84ad 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -71,11 +71,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
 
     /* Reset all flags
      * Threaded: the flag might be concurrently updated by another thread,
-     * however, the user must use additional thread sync to ensure a flush
-     * completes the specific AMO. */
+     * thus it stays set. */
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+        OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
     }
 }
 
diff --git a/src/internal/amo_am_impl.h b/src/internal/amo_am_impl.h
index 25834a9..4b750c7 100644
--- a/src/internal/amo_am_impl.h
+++ b/src/internal/amo_am_impl.h
@@ -45,7 +45,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_cswap(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a fetch (with op) operation. Blocking wait until return of old value. */
@@ -88,7 +88,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_fetch(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a post operation. Return immediately after sent AMO packet */
diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index 4089087..03c29da 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -77,7 +77,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
@@ -169,7 +169,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iget(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
     OSHMPI_free_strided_dtype(mpi_type, &origin_type);
 }
 
-- 
2.43.0


From f965a1c31999e771f0f2613ab3a34b6d8bd65df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 29/33] fix: signal termination of the progress thread before
 the condition variable can be destroyed

---
 src/internal/am_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 08a4905..d075bd5 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -77,8 +77,9 @@ static void *am_cb_async_progress(void *arg OSHMPI_ATTRIBUTE((unused)))
   terminate:
     OSHMPI_CALLPTHREAD(pthread_mutex_lock(&OSHMPI_am.async_mutex));
     OSHMPI_am.async_thread_done = 1;
-    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
+    /* Signal before unlock, the main thread may destroy the condition variable afterwards */
     OSHMPI_CALLPTHREAD(pthread_cond_signal(&OSHMPI_am.async_cond));
+    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
 
     return NULL;
 }
-- 
2.43.0


From b76857f60e48644e82e49577d60f1782a2f2567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 30/33] fix: do not expose a space's windows to other threads
 while attach or detach is in progress

---
 src/internal/space_impl.c | 55 +++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 1ce8ede..b78a181 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -278,6 +278,10 @@ static int space_attach_idx = 0;
 void OSHMPI_space_attach(OSHMPI_space_t * space)
 {
     MPI_Info info = MPI_INFO_NULL;
+    OSHMPI_ctx_t *ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_ictx_t default_ictx;
+#endif
 
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
@@ -307,31 +311,40 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     OSHMPI_DBGMSG("attach space %p, default ctx: attach to symm_ictx\n", space);
 #else
     space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size, info,
-                      &space->default_ictx);
+                      &default_ictx);
     OSHMPI_DBGMSG("attach space %p, default ctx: new ictx.win 0x%" PRIx64 "\n", space,
-                  (uint64_t) space->default_ictx.win);
+                  (uint64_t) default_ictx.win);
 #endif
     OSHMPI_sobj_symm_info_dbgprint(&space->sobj_attr);
 
     /* TODO: assume all processes have the same config */
     /* Create explicit-context windows */
     if (space->config.num_contexts > 0) {
-        space->ctx_list =
-            (OSHMPI_ctx_t *) OSHMPIU_malloc(sizeof(OSHMPI_ctx_t) * space->config.num_contexts);
+        ctx_list = (OSHMPI_ctx_t *)
+            OSHMPIU_malloc(sizeof(OSHMPI_ctx_t) * space->config.num_contexts);
         int i;
         for (i = 0; i < space->config.num_contexts; i++) {
             space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size,
-                              info, &space->ctx_list[i].ictx);
+                              info, &ctx_list[i].ictx);
 
             /* copy into context to avoid pointer dereference in RMA/AMO path */
-            space->ctx_list[i].sobj_attr = space->sobj_attr;
-            OSHMPIU_ATOMIC_FLAG_STORE(space->ctx_list[i].used_flag, 0);
+            ctx_list[i].sobj_attr = space->sobj_attr;
+            OSHMPIU_ATOMIC_FLAG_STORE(ctx_list[i].used_flag, 0);
 
             OSHMPI_DBGMSG("attach space %p, private ctx[%d]: new ictx.win 0x%" PRIx64 "\n",
-                          space, i, (uint64_t) space->ctx_list[i].ictx.win);
+                          space, i, (uint64_t) ctx_list[i].ictx.win);
         }
     }
 
+    /* Expose the windows only after all of them are ready, since another thread may
+     * concurrently complete operations on all spaces */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    space->default_ictx = default_ictx;
+#endif
+    space->ctx_list = ctx_list;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     OSHMPI_CALLMPI(MPI_Info_free(&info));
 }
 
@@ -344,23 +357,33 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
      * message progress, thus wait for all PEs first. */
     OSHMPI_barrier_all();
 
+    /* Space should have already be attached or no context is required at config */
+    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));
+
+    /* Hide the windows before destroying any of them, since another thread may
+     * concurrently complete operations on all spaces */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    OSHMPI_ctx_t *ctx_list = space->ctx_list;
+    space->ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_ictx_t default_ictx = space->default_ictx;
+    space->default_ictx.win = MPI_WIN_NULL;
+#endif
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-    space_ictx_destroy(&space->default_ictx);
+    space_ictx_destroy(&default_ictx);
 #endif
 
-    /* Space should have already be attached or no context is required at config */
-    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));
-
     /* Destroy explicit-context windows */
     for (i = 0; i < space->config.num_contexts; i++) {
-        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(space->ctx_list[i].used_flag) == 0);
-        space_ictx_destroy(&space->ctx_list[i].ictx);
+        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(ctx_list[i].used_flag) == 0);
+        space_ictx_destroy(&ctx_list[i].ictx);
     }
-    OSHMPIU_free(space->ctx_list);
-    space->ctx_list = NULL;
+    OSHMPIU_free(ctx_list);
 
     OSHMPI_sobj_destroy_attr(&space->sobj_attr);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
-- 
2.43.0


From 85cdfba2ab29d7b86d32dd77794f0914b163267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 31/33] fix: accept the documented value "all" of
 OSHMPI_AMO_OPS

---
 src/internal/setup_impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 9eb0cbd..de457e3 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -308,7 +308,7 @@ static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
     if (!strncmp(value, "none", strlen("none"))) {
         *ops_ptr = 0;
         return;
-    } else if (!strncmp(value, "any_op", strlen("any_op"))) {
+    } else if (!strncmp(value, "any_op", strlen("any_op")) || !strncmp(value, "all", strlen("all"))) {
         OSHMPI_amo_op_shift_t op_shift;
         /* add all ops */
         for (op_shift = OSHMPI_AMO_CSWAP; op_shift < OSHMPI_AMO_OP_LAST; op_shift++)
-- 
2.43.0


From 78486098b5a8bcb701f1e77a011511aad0e54c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:43 +0000
Subject: [PATCH 32/33] fix: address the lock queue of every PE by that PE's
 own displacement (dynamic_win)

---
 src/internal/lock_impl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 505c54f..f32051d 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -46,8 +46,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
-
     /* Reset my local bits. No one accesses to my next bits now. */
     lock->next = 0;
     OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
@@ -61,12 +59,17 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 
     /* If I am not the last, notify the previous last about me, and wait for release */
     if (curid != zero) {
+        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next, curid - 1,
+                                        OSHMPI_ICTX_DISP_MODE(ictx), &lock_next_disp);
         OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,
                                       1, MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(curid - 1, ictx->win));
 
         /* Wait till received release signal of this lock.
          * Do not reset, we will reset at next set_lock call. */
+        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next,
+                                        OSHMPI_global.team_world_my_pe,
+                                        OSHMPI_ICTX_DISP_MODE(ictx), &lock_next_disp);
         while (1) {
             OSHMPI_CALLMPI(MPI_Fetch_and_op
                            (NULL, &signal, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,
@@ -101,8 +104,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
-
     /* Complete all operations issued in the critical region before releasing the lock */
     OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
@@ -115,6 +116,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     /* If I am not the last one, then notify the next that I released */
     if (curid != myid) {
+        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next,
+                                        OSHMPI_global.team_world_my_pe,
+                                        OSHMPI_ICTX_DISP_MODE(ictx), &lock_next_disp);
         while (1) {
             OSHMPI_CALLMPI(MPI_Fetch_and_op
                            (NULL, &next, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,
@@ -131,6 +135,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
         OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
 
         /* Set next PE's signal bit */
+        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next, nextid - 1,
+                                        OSHMPI_ICTX_DISP_MODE(ictx), &lock_next_disp);
         OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1, lock_next_disp, 1,
                                       MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));
-- 
2.43.0


From 66eea78d1a6af553df39e6cbc8211fdf048a6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:43 +0000
Subject: [PATCH 33/33] fix: space attach exchanged addresses before all PEs
 had arrived, without progress (dynamic_win)

---
 src/internal/space_impl.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index b78a181..311dd51 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -292,6 +292,10 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* Set space specific info hints */
     space_set_mpi_info_args(space->config.hints, info);
 
+    /* Address exchange and window creation block without active message progress, thus wait
+     * for all PEs first */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     /* Update symm object handle
      * TODO: need collectively define index when adding teams */
     int symm_flag = 0;
@@ -300,9 +304,6 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
                            symm_flag, space_attach_idx);
     space_attach_idx++;
 
-    /* Window creation blocks without active message progress, thus wait for all PEs first */
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
-
     /* Create internal window */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base,
-- 
2.43.0

