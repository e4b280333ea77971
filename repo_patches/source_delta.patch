From a684d92342dfd121925d781127cbf704f3453b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:46 +0000
Subject: [PATCH 01/29] fix: don't release an uninitialized fdinfo when the fd
 lookup fails

fd_advise, fd_allocate and fd_filestat_set_size released whatever was in
the local variable when they were called with a bad file descriptor.
---
 libwasi/wasi_abi_fd.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fa59864..fb2c98a 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -29,11 +29,8 @@ wasi_fd_advise(struct exec_context *ctx, struct host_instance *hi,
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
         uint32_t adv = HOST_FUNC_PARAM(ft, params, 3, i32);
 #endif
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -58,11 +55,8 @@ wasi_fd_allocate(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t offset = HOST_FUNC_PARAM(ft, params, 1, i64);
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -85,11 +79,8 @@ wasi_fd_filestat_set_size(struct exec_context *ctx, struct host_instance *hi,
         HOST_FUNC_CONVERT_PARAMS(ft, params);
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t size = HOST_FUNC_PARAM(ft, params, 1, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
-- 
2.43.0


From bcf650cb5b442a17602fa7fb79a5cee5d2475350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:46 +0000
Subject: [PATCH 02/29] fix: initialize path_info in path_create_directory

path_clear used uninitialized pointers when the path conversion failed.
---
 libwasi/wasi_abi_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index ef4b558..42a6928 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -138,7 +138,7 @@ wasi_path_create_directory(struct exec_context *ctx, struct host_instance *hi,
         uint32_t pathlen = HOST_FUNC_PARAM(ft, params, 2, i32);
         int host_ret;
         int ret = 0;
-        struct path_info pi;
+        struct path_info pi = PATH_INITIALIZER;
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From 30b0f4f0df65595f1aa53b22f6f1038e26e48a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:46 +0000
Subject: [PATCH 03/29] fix: free the new fdinfo when set_nonblocking fails

wasi_instance_add_hostfd released it as if it had been in the fd table
already. The reference count was decremented from zero.
---
 libwasi/wasi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libwasi/wasi.c b/libwasi/wasi.c
index ee95a84..185b65f 100644
--- a/libwasi/wasi.c
+++ b/libwasi/wasi.c
@@ -117,6 +117,8 @@ wasi_instance_add_hostfd(struct wasi_instance *inst, uint32_t wasmfd,
                 if (ret != 0) {
                         xlog_error("set_nonblocking failed on fd %d with %d",
                                    hostfd, ret);
+                        wasi_fdinfo_free(fdinfo);
+                        fdinfo = NULL;
                         goto fail;
                 }
         }
-- 
2.43.0


From 83865a6509cab3571df9df8afa1e5e7200a846a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:14 +0000
Subject: [PATCH 04/29] fix: check the last byte of a memory access without
 overflow

With 1-byte pages the number of pages needed for an access to the last
byte of the address space wrapped to 0. The access was then accepted.
---
 lib/exec_insn_subr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1ce6f5d..245267b 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -74,8 +74,7 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         }
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
-                uint32_t need_in_pages = (last_byte >> page_shift) + 1;
-                if (need_in_pages > meminst->size_in_pages) {
+                if (last_byte >> page_shift >= meminst->size_in_pages) {
 do_trap:
                         return ETOYWASMTRAP;
                 }
-- 
2.43.0


From 60d0232b7287903502f33dbe1420dc16583816b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:14 +0000
Subject: [PATCH 05/29] fix: calculate the size of a shared memory in 64 bits

A shared memory of 65536 pages was created with 0 bytes.
---
 lib/instance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/instance.c b/lib/instance.c
index 4d9ff3c..1b314b4 100644
--- a/lib/instance.c
+++ b/lib/instance.c
@@ -185,7 +185,8 @@ memory_instance_create(struct mem_context *mctx, struct meminst **mip,
                 uint32_t need_in_pages = mt->lim.min;
 #endif /* defined(TOYWASM_PREALLOC_SHARED_MEMORY) */
                 uint32_t page_shift = memtype_page_shift(mt);
-                uint64_t need_in_bytes = need_in_pages << page_shift;
+                uint64_t need_in_bytes = (uint64_t)need_in_pages
+                                         << page_shift;
                 if (need_in_bytes > SIZE_MAX) {
                         ret = EOVERFLOW;
                         goto fail1;
-- 
2.43.0


From 5c496c874f3f6fd2dc1b9e74a8740efe397ac1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:14 +0000
Subject: [PATCH 06/29] fix: resume threads before retrying memory.grow

When another thread changed the size of the memory in the meantime,
memory.grow suspended the threads a second time. The first suspension
was never ended.
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 245267b..1a87999 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -489,6 +489,7 @@ retry:
                         suspend_threads(c);
                         memory_lock(mi);
                         if (mi->size_in_pages != orig_size) {
+                                resume_threads(c);
                                 goto retry;
                         }
                         assert((mi->allocated % (1 << page_shift)) == 0);
-- 
2.43.0


From 4fde91bac60e353ecd9509ffe4873f8026db1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:14 +0000
Subject: [PATCH 07/29] fix: index table cells in size_t

The index of a table element was multiplied by the number of cells of an
element in 32 bits. It wrapped for tables of 2^31 or more elements.
---
 lib/cell.c           |  2 +-
 lib/cell.h           |  3 ++-
 lib/exec_insn_subr.c | 10 +++++-----
 lib/insn_impl_fc.h   |  7 ++++---
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/cell.c b/lib/cell.c
index 3560cbb..f78bf53 100644
--- a/lib/cell.c
+++ b/lib/cell.c
@@ -307,7 +307,7 @@ cells_copy(struct cell *restrict dst, const struct cell *restrict src,
 }
 
 void
-cells_move(struct cell *dst, const struct cell *src, uint32_t ncells)
+cells_move(struct cell *dst, const struct cell *src, size_t ncells)
 {
         if (dst <= src) {
                 while (ncells > 0) {
diff --git a/lib/cell.h b/lib/cell.h
index 579334f..fa75928 100644
--- a/lib/cell.h
+++ b/lib/cell.h
@@ -1,6 +1,7 @@
 #if !defined(_TOYWASM_CELL_H)
 #define _TOYWASM_CELL_H
 
+#include <stddef.h>
 #include <stdint.h>
 
 #include "toywasm_config.h"
@@ -61,7 +62,7 @@ void vals_from_cells(struct val *vals, const struct cell *cells,
 
 void cells_zero(struct cell *cells, uint32_t ncells);
 void cells_copy(struct cell *dst, const struct cell *src, uint32_t ncells);
-void cells_move(struct cell *dst, const struct cell *src, uint32_t ncells);
+void cells_move(struct cell *dst, const struct cell *src, size_t ncells);
 
 __END_EXTERN_C
 
diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1a87999..4a1877a 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -279,7 +279,7 @@ table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx,
                                 goto fail;
                         }
                 }
-                val_to_cells(&val, &t->cells[(d + i) * csz], csz);
+                val_to_cells(&val, &t->cells[(size_t)(d + i) * csz], csz);
                 xlog_trace("table %" PRIu32 " offset %" PRIu32
                            " initialized to %016" PRIx64,
                            tableidx, d + i, val.u.i64);
@@ -293,14 +293,14 @@ void
 table_set(struct tableinst *tinst, uint32_t elemidx, const struct val *val)
 {
         uint32_t csz = valtype_cellsize(tinst->type->et);
-        val_to_cells(val, &tinst->cells[elemidx * csz], csz);
+        val_to_cells(val, &tinst->cells[(size_t)elemidx * csz], csz);
 }
 
 void
 table_get(struct tableinst *tinst, uint32_t elemidx, struct val *val)
 {
         uint32_t csz = valtype_cellsize(tinst->type->et);
-        val_from_cells(val, &tinst->cells[elemidx * csz], csz);
+        val_from_cells(val, &tinst->cells[(size_t)elemidx * csz], csz);
 }
 
 int
@@ -320,7 +320,7 @@ table_get_func(struct exec_context *ectx, const struct tableinst *t,
         }
         struct val val;
         uint32_t csz = valtype_cellsize(t->type->et);
-        val_from_cells(&val, &t->cells[i * csz], csz);
+        val_from_cells(&val, &t->cells[(size_t)i * csz], csz);
         const struct funcinst *func = val.u.funcref.func;
         if (__predict_false(func == NULL)) {
                 ret = trap_with_id(ectx, TRAP_CALL_INDIRECT_NULL_FUNCREF,
@@ -377,7 +377,7 @@ table_grow(struct tableinst *t, const struct val *val, uint32_t n)
 
         uint32_t i;
         for (i = t->size; i < newsize; i++) {
-                val_to_cells(val, &t->cells[i * csz], csz);
+                val_to_cells(val, &t->cells[(size_t)i * csz], csz);
         }
         uint32_t oldsize = t->size;
         t->size = newsize;
diff --git a/lib/insn_impl_fc.h b/lib/insn_impl_fc.h
index 6eed818..3174e81 100644
--- a/lib/insn_impl_fc.h
+++ b/lib/insn_impl_fc.h
@@ -205,8 +205,8 @@ INSN_IMPL(table_copy)
                         VEC_ELEM(inst->tables, tableidx_src);
                 assert(t_src->type->et == t_dst->type->et);
                 uint32_t csz = valtype_cellsize(t_src->type->et);
-                cells_move(&t_dst->cells[d * csz], &t_src->cells[s * csz],
-                           n * csz);
+                cells_move(&t_dst->cells[(size_t)d * csz],
+                           &t_src->cells[(size_t)s * csz], (size_t)n * csz);
         }
         SAVE_PC;
         INSN_SUCCESS;
@@ -283,7 +283,8 @@ INSN_IMPL(table_fill)
                 uint32_t i;
                 uint32_t csz = valtype_cellsize(t->type->et);
                 for (i = start; i < end; i++) {
-                        val_to_cells(&val_val, &t->cells[i * csz], csz);
+                        val_to_cells(&val_val, &t->cells[(size_t)i * csz],
+                                     csz);
                 }
         }
         SAVE_PC;
-- 
2.43.0


From f358cc55d4a3389ed66780346016b25cfc06e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:55 +0000
Subject: [PATCH 08/29] fix: accept absolute times in the past when converting
 between clocks

The check for a result before the epoch was inverted. Polling for a
monotonic time that had already passed failed with EOVERFLOW.
---
 lib/timeutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeutil.c b/lib/timeutil.c
index cea79cf..0d22a67 100644
--- a/lib/timeutil.c
+++ b/lib/timeutil.c
@@ -228,7 +228,7 @@ convert_timespec(clockid_t from_id, clockid_t to_id,
         } else {
                 struct timespec t;
                 timespec_sub(&from_now, from_ts, &t);
-                if (timespec_cmp(&to_now, &t) > 0) {
+                if (timespec_cmp(&to_now, &t) < 0) {
                         ret = EOVERFLOW;
                         goto fail;
                 }
-- 
2.43.0


From 58ae0c2c99bf5cb4c481324f59a339e0118c1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:56 +0000
Subject: [PATCH 09/29] fix: reject trailing bytes in the data count section

The section reader claimed to have consumed the whole section, so the
check for extra bytes never applied to it.
---
 lib/module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 3dcc019..de16fca 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1797,7 +1797,7 @@ read_datacount_section(const uint8_t **pp, const uint8_t *ep,
         ctx->has_datacount = true;
         ctx->ndatas_in_datacount = count;
         ret = 0;
-        *pp = ep;
+        *pp = p;
 fail:
         return ret;
 }
-- 
2.43.0


From b05a77dd61504e79de7d5d9494ee09ff49e6c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:56 +0000
Subject: [PATCH 10/29] fix: survive running out of memory while reading
 dylink.0

The error path dereferenced the structure that could not be allocated.
---
 lib/module.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/module.c b/lib/module.c
index de16fca..620bec3 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2094,9 +2094,11 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
         *pp = p;
         return 0;
 fail:
-        clear_dylink(mctx, m->dylink);
-        mem_free(mctx, m->dylink, sizeof(*m->dylink));
-        m->dylink = NULL;
+        if (m->dylink != NULL) {
+                clear_dylink(mctx, m->dylink);
+                mem_free(mctx, m->dylink, sizeof(*m->dylink));
+                m->dylink = NULL;
+        }
         return ret;
 }
 #endif /* defined(TOYWASM_ENABLE_DYLD) */
-- 
2.43.0


From 7fb29892672bf4cdef05869466ccebd11d793012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:56 +0000
Subject: [PATCH 11/29] fix: keep reading dylink.0 after an unknown subsection

The loop stopped at the first subsection it did not know. The remaining
subsections were then reported as extra bytes and the module rejected.
---
 lib/module.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 620bec3..847746b 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2087,7 +2087,6 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
                         xlog_trace("skipping unimplemented subsection (%u)",
                                    (unsigned int)type);
                         p = sep;
-                        break;
                 }
         } while (p < ep);
         ret = 0;
-- 
2.43.0


From 9e773919ded16e976b8042f3028821812affef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:56 +0000
Subject: [PATCH 12/29] fix: reject functions with too many parameters and
 locals in total

The sum of the two counts could wrap around. The array of local types
was then too small and was overrun while loading the module.
---
 lib/expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/expr.c b/lib/expr.c
index d1363bb..c9dca20 100644
--- a/lib/expr.c
+++ b/lib/expr.c
@@ -60,7 +60,11 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
         vctx->ei = ei = &expr->ei;
         memset(ei, 0, sizeof(*ei));
 
-        uint32_t lsize = parameter_types->ntypes + nlocals;
+        uint32_t lsize;
+        if (ADD_U32_OVERFLOW(parameter_types->ntypes, nlocals, &lsize)) {
+                ret = EOVERFLOW;
+                goto fail;
+        }
         ret = VEC_PREALLOC(vctx->mctx, vctx->locals, lsize);
         if (ret != 0) {
                 goto fail;
-- 
2.43.0


From 2b6b6d1886c0781850b3dbf7a734ea29c27af593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:56 +0000
Subject: [PATCH 13/29] fix: destroy shared memories once when creating one of
 them fails

A memory already handed over to the import object was also destroyed by
the error path when a later memory could not be created.
---
 lib/shared_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/shared_memory.c b/lib/shared_memory.c
index 8cfa04d..f9758c3 100644
--- a/lib/shared_memory.c
+++ b/lib/shared_memory.c
@@ -67,6 +67,7 @@ create_satisfying_shared_memories(struct mem_context *mctx,
                 e->name = &im->name;
                 e->type = EXTERNTYPE_MEMORY;
                 e->u.mem = mi;
+                mi = NULL;
         }
 
         *imop = imo;
-- 
2.43.0


From 6a0f4837e8f4c0c0f960d90c6f21603430ff882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:37 +0000
Subject: [PATCH 14/29] fix: do not grow the descriptor table to a guest-chosen
 size in fd_renumber

fd_renumber grew the descriptor table to hold the target number before
checking that the target is open. With the number 0xffffffff the size
wrapped to zero and the table was overrun. The target has to be open
anyway, so no growth is needed.
---
 libwasi/wasi_abi_fd.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fb2c98a..0341fbc 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -881,12 +881,6 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
-        /* ensure the table size is big enough */
-        ret = wasi_table_expand(wasi, tblidx, wasifd_to);
-        if (ret != 0) {
-                goto fail_locked;
-        }
-
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From d7f34cdf751eb41eeefca1e85397e6ad7b0d1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:37 +0000
Subject: [PATCH 15/29] fix: make fd_renumber of a descriptor to itself a no-op

Renumbering a descriptor to itself closed it and left its slot empty.
Debug builds failed an assertion on the reference count instead.
---
 libwasi/wasi_abi_fd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index 0341fbc..fe7ea29 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -881,6 +881,13 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
+        /* renumbering a descriptor to itself is a no-op */
+        if (wasifd_from == wasifd_to) {
+                ret = wasi_table_lookup_locked(wasi, tblidx, wasifd_from,
+                                               &fdinfo_from);
+                goto fail_locked;
+        }
+
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From 16cc5b6c4081b219ba5455326cd737ccb8fb0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:37 +0000
Subject: [PATCH 16/29] fix: avoid a 32-bit wrap when allocating a buffer for a
 guest path

A path length of 0xffffffff made the buffer size wrap to zero. With a
4 GiB guest memory the copy then overran the buffer.
---
 libwasi/wasi_abi_path.c  | 2 +-
 libwasi/wasi_path_subr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 42a6928..0fc750f 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -202,7 +202,7 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
         struct path_info pi = PATH_INITIALIZER;
         int host_ret = 0;
         int ret = 0;
-        target_buf = malloc(targetlen + 1);
+        target_buf = malloc((size_t)targetlen + 1);
         if (target_buf == NULL) {
                 ret = ENOMEM;
                 goto fail;
diff --git a/libwasi/wasi_path_subr.c b/libwasi/wasi_path_subr.c
index 9bab4b2..9838970 100644
--- a/libwasi/wasi_path_subr.c
+++ b/libwasi/wasi_path_subr.c
@@ -39,7 +39,7 @@ wasi_copyin_and_convert_path(struct exec_context *ctx,
         struct wasi_fdinfo *dirfdinfo = NULL;
         int host_ret = 0;
         int ret = 0;
-        wasmpath = malloc(pathlen + 1);
+        wasmpath = malloc((size_t)pathlen + 1);
         if (wasmpath == NULL) {
                 ret = ENOMEM;
                 goto fail;
-- 
2.43.0


From 8d5a06dbd767501a3e9b4b33a27b71f4700a565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:37 +0000
Subject: [PATCH 17/29] fix: close the host file when the descriptor table
 cannot grow

path_open and sock_accept freed the descriptor object but not the host
file and path it owned when adding it to the table failed.
---
 libwasi/wasi_abi_path.c | 1 +
 libwasi/wasi_abi_sock.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 0fc750f..f3ff60c 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -69,6 +69,7 @@ wasi_path_open(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd;
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo, &wasifd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo);
                 goto fail;
         }
         fdinfo = NULL;
diff --git a/libwasi/wasi_abi_sock.c b/libwasi/wasi_abi_sock.c
index f5f48eb..1b0f95e 100644
--- a/libwasi/wasi_abi_sock.c
+++ b/libwasi/wasi_abi_sock.c
@@ -67,6 +67,7 @@ retry:
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo_child,
                                     &wasichildfd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo_child);
                 goto fail;
         }
         fdinfo_child = NULL;
-- 
2.43.0


From 32cff2233c1b415331125909b8c8243c4e4569ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:37 +0000
Subject: [PATCH 18/29] fix: close the host descriptor of a directory only once

After fd_readdir, fd_close closed the host descriptor and then closed
it again through closedir, which could hit a descriptor opened by
another thread in between.
---
 libwasi/wasi_host_fdop.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libwasi/wasi_host_fdop.c b/libwasi/wasi_host_fdop.c
index 5ddfad0..c506687 100644
--- a/libwasi/wasi_host_fdop.c
+++ b/libwasi/wasi_host_fdop.c
@@ -312,10 +312,13 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
         struct wasi_fdinfo_host *fdinfo_host = wasi_fdinfo_to_host(fdinfo);
         int ret = 0;
         int hostfd = fdinfo_host->hostfd;
+        if (fdinfo_host->dir != NULL) {
+                /* Note: closedir closes the underlying hostfd as well */
+                ret = wasi_host_dir_close(fdinfo);
 #if defined(__wasi__) /* wasi has no dup */
-        if (hostfd != -1 && hostfd >= 3) {
+        } else if (hostfd != -1 && hostfd >= 3) {
 #else
-        if (hostfd != -1) {
+        } else if (hostfd != -1) {
 #endif
                 ret = close(hostfd);
                 ret = handle_errno(ret);
@@ -324,9 +327,6 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
                                    hostfd, ret);
                 }
         }
-        if (fdinfo_host->dir != NULL) {
-                wasi_host_dir_close(fdinfo);
-        }
         fdinfo_host->hostfd = -1;
         fdinfo_host->dir = NULL;
         return ret;
-- 
2.43.0


From 7540b3b6237e00cc710340972019b37012890066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:37 +0000
Subject: [PATCH 19/29] fix: initialise the address length passed to accept

The length of the address buffer was read uninitialised by the kernel.
---
 libwasi/wasi_host_sockop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_host_sockop.c b/libwasi/wasi_host_sockop.c
index 26d3abd..10cef29 100644
--- a/libwasi/wasi_host_sockop.c
+++ b/libwasi/wasi_host_sockop.c
@@ -43,7 +43,7 @@ wasi_host_sock_accept(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
 #if !defined(TOYWASM_OLD_WASI_LIBC)
         struct sockaddr_storage ss;
         struct sockaddr *sa = (void *)&ss;
-        socklen_t salen;
+        socklen_t salen = sizeof(ss);
 #endif
 #if defined(TOYWASM_OLD_WASI_LIBC)
         errno = ENOSYS;
-- 
2.43.0


From 6c0f22459801041ed6337d8217ba57cced639386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:12 +0000
Subject: [PATCH 20/29] fix: check the error returned by fstat when rejecting
 directories

wasi_vfs_fd_fstat returns an error number rather than -1. A failure was
not noticed and uninitialised data decided whether the descriptor is a
directory.
---
 libwasi/wasi_subr.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libwasi/wasi_subr.c b/libwasi/wasi_subr.c
index a4fde82..f80d492 100644
--- a/libwasi/wasi_subr.c
+++ b/libwasi/wasi_subr.c
@@ -40,9 +40,7 @@ wasi_userfd_reject_directory(struct wasi_fdinfo *fdinfo)
         int ret;
 
         ret = wasi_vfs_fd_fstat(fdinfo, &st);
-        if (ret == -1) {
-                ret = errno;
-                assert(ret > 0);
+        if (ret != 0) {
                 goto fail;
         }
         if (st.type == WASI_FILETYPE_DIRECTORY) {
-- 
2.43.0


From 16c57609ad5251b31fa6f4a28baac4bfe29e7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:10 +0000
Subject: [PATCH 21/29] fix: undo a failed thread start under the user-level
 scheduler

When the execution context of a new thread could not be allocated,
wasi_thread_spawn_common dropped the instance and the thread argument and
kept the thread identifier and the count of live threads.  Joining the
threads then never ended.  Use the same undo as for pthread_create.
---
 libwasi_threads/wasi_threads.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 2035a46..3fb70c0 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -470,15 +470,18 @@ wasi_thread_spawn_common(struct exec_context *ctx,
 #else
         pthread_t t;
         ret = pthread_create(&t, NULL, runner, arg);
+#endif
         if (ret != 0) {
                 toywasm_mutex_lock(&wasi->cluster.lock);
                 idalloc_free(&wasi->tids, tid, wasi->mctx);
                 cluster_remove_thread(&wasi->cluster);
                 toywasm_mutex_unlock(&wasi->cluster.lock);
-                xlog_trace("%s: pthread_create failed with %d", __func__, ret);
+                xlog_trace("%s: starting a thread failed with %d", __func__,
+                           ret);
                 goto fail;
         }
 
+#if !defined(TOYWASM_USE_USER_SCHED)
         ret = pthread_detach(t);
         if (ret != 0) {
                 /* log and ignore */
-- 
2.43.0


From 554ade97c28cfaf8bb6e19793c9df1aeeb480b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:34 +0000
Subject: [PATCH 22/29] fix: give dynamically linked objects ranges that exist
 and are free

The ranges of memory and table for an object were computed in 32 bits
from values given by the object, and from the size the linker had last
left.  A large size wrapped around, and an object loaded after the
program had grown its memory was placed over the pages of the program.
Compute in 64 bits, reject what does not fit, and start from the current
size.
---
 libdyld/dyld.c | 52 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 28546de..ecc2d61 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -146,24 +146,24 @@ static const struct globaltype globaltype_i32_const = {
         .mut = GLOBAL_CONST,
 };
 
-static uint32_t
-align_up(uint32_t v, uint32_t align)
+static uint64_t
+align_up(uint64_t v, uint64_t align)
 {
-        uint32_t mask = align - 1;
+        uint64_t mask = align - 1;
         return (v + mask) & ~mask;
 }
 
-static uint32_t
-align_up_log(uint32_t v, uint32_t palign)
+static uint64_t
+align_up_log(uint64_t v, uint32_t palign)
 {
-        uint32_t align = 1 << palign;
+        uint64_t align = (uint64_t)1 << palign;
         return align_up(v, align);
 }
 
 static uint32_t
 howmany(uint32_t a, uint32_t b)
 {
-        return (a + b - 1) / b;
+        return ((uint64_t)a + b - 1) / b;
 }
 
 static uint32_t
@@ -522,12 +522,26 @@ static int
 dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
-        uint32_t oldbase = d->memory_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
+        if (align >= 32) {
+                return EINVAL;
+        }
         const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
+        uint64_t oldbase = d->memory_base;
         uint32_t oldnpg = howmany(oldbase, page_size);
+        /*
+         * the memory might have been grown by wasm code.
+         * in that case, start after the pages it owns.
+         */
+        uint32_t curnpg = memory_grow(d->meminst, 0);
+        if (curnpg != oldnpg) {
+                oldnpg = curnpg;
+                oldbase = (uint64_t)curnpg * page_size;
+        }
+        uint64_t aligned = align_up_log(oldbase, align);
+        uint64_t newbase = aligned + sz;
+        if (newbase > UINT32_MAX) {
+                return ENOMEM;
+        }
         uint32_t newnpg = howmany(newbase, page_size);
         assert(newnpg >= oldnpg);
         if (newnpg > oldnpg) {
@@ -546,10 +560,18 @@ static int
 dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
-        uint32_t oldbase = d->table_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
+        if (align >= 32) {
+                return EINVAL;
+        }
+        /*
+         * Note: the table might have been grown by wasm code.
+         */
+        uint32_t oldbase = d->tableinst->size;
+        uint64_t aligned = align_up_log(oldbase, align);
+        uint64_t newbase = aligned + sz;
+        if (newbase > UINT32_MAX) {
+                return ENOMEM;
+        }
         if (newbase > oldbase) {
                 uint32_t ret =
                         table_grow(d->tableinst, &val_null, newbase - oldbase);
-- 
2.43.0


From 206f5de4b558a33fa5f6c01f6607f726285cd950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:46 +0000
Subject: [PATCH 23/29] fix: keep the names of dynamically loaded objects valid

A loaded object refers to its name.  The names were stored in a vector
that moves when it grows, and were freed when loading failed although
the object stayed in the list.  Allocate each record separately, keep it
until dyld_clear, and do not use objects left by a failed load.  Also
avoid the wraparound of the length of the name, and the reuse of a slot
when an init function loads another object.
---
 libdyld/dyld.c       | 13 +++++++++----
 libdyld/dyld.h       |  2 +-
 libdyld/dyld_dlfcn.c | 35 +++++++++++++++++++++++++----------
 libdyld/dyld_impl.h  |  2 ++
 4 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index ecc2d61..b531a30 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -300,7 +300,7 @@ dyld_find_object_by_name(struct dyld *d, const struct name *name)
 {
         struct dyld_object *obj;
         SLIST_FOREACH(obj, &d->objs, q) {
-                if (is_main_object(obj)) {
+                if (is_main_object(obj) || obj->failed) {
                         continue;
                 }
                 if (!compare_name(obj->name, name)) {
@@ -1309,6 +1309,9 @@ dyld_resolve_symbol(struct dyld_object *refobj, enum symtype symtype,
         struct dyld *d = refobj->dyld;
         struct dyld_object *obj;
         SLIST_FOREACH(obj, &d->objs, q) {
+                if (obj->failed) {
+                        continue;
+                }
                 int ret = dyld_resolve_symbol_in_obj(refobj, obj, symtype, sym,
                                                      resultp);
                 if (ret == 0) {
@@ -1527,10 +1530,12 @@ dyld_clear(struct dyld *d)
                 import_object_destroy(mctx, imp);
         }
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        struct dyld_dynamic_object *it;
+        struct dyld_dynamic_object **it;
         VEC_FOREACH(it, d->dynobjs) {
-                size_t sz = strlen(it->name.data) + 1;
-                mem_free(mctx, (void *)it->name.data, sz); /* discard const */
+                struct dyld_dynamic_object *dobj = *it;
+                size_t sz = (size_t)dobj->name.nbytes + 1;
+                mem_free(mctx, (void *)dobj->name.data, sz); /* discard const */
+                mem_free(mctx, dobj, sizeof(*dobj));
         }
         VEC_FREE(mctx, d->dynobjs);
 #endif
diff --git a/libdyld/dyld.h b/libdyld/dyld.h
index 53cce31..64c9574 100644
--- a/libdyld/dyld.h
+++ b/libdyld/dyld.h
@@ -78,7 +78,7 @@ struct dyld {
         struct dyld_options opts;
 
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        VEC(, struct dyld_dynamic_object) dynobjs;
+        VEC(, struct dyld_dynamic_object *) dynobjs;
 #endif
 
         struct mem_context *mctx;
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index a1ffb62..f3f0a9d 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -41,8 +41,9 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
         *objp = obj;
         return 0;
 fail:
-        if (obj != NULL) {
-                /* TODO: implement cleanup */
+        /* TODO: implement cleanup */
+        for (; obj != NULL; obj = SLIST_NEXT(obj, q)) {
+                obj->failed = true;
         }
         return ret;
 }
@@ -79,19 +80,23 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
 
-        uint32_t idx = d->dynobjs.lsize;
         ret = VEC_PREALLOC(d->mctx, d->dynobjs, 1);
         if (ret != 0) {
                 xlog_error("%s: dynobjs prealloc failed", __func__);
                 user_ret = 1;
                 goto fail;
         }
-        struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
-        memset(dobj, 0, sizeof(*dobj));
-
-        char *name_data = mem_alloc(d->mctx, namelen + 1);
+        struct dyld_dynamic_object *dobj =
+                mem_zalloc(d->mctx, sizeof(*dobj));
+        if (dobj == NULL) {
+                xlog_error("%s: malloc failed", __func__);
+                user_ret = 1;
+                goto fail;
+        }
+        char *name_data = mem_alloc(d->mctx, (size_t)namelen + 1);
         if (name_data == NULL) {
                 xlog_error("%s: malloc failed", __func__);
+                mem_free(d->mctx, dobj, sizeof(*dobj));
                 user_ret = 1;
                 goto fail;
         }
@@ -101,15 +106,21 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         struct name *name = &dobj->name;
         name->data = name_data;
         name->nbytes = namelen;
+        /*
+         * Note: loaded objects refer to the name, even when loading fails
+         * later. dyld_clear frees it.
+         * Note: init functions can load other objects.
+         */
+        uint32_t idx = d->dynobjs.lsize;
+        VEC_ELEM(d->dynobjs, idx) = dobj;
+        d->dynobjs.lsize++;
         ret = dyld_dynamic_load_object_by_name(d, name, false, &dobj->obj);
         if (ret != 0) {
                 xlog_error("%s: dyld_dynamic_load_object_by_name failed",
                            __func__);
-                mem_free(d->mctx, name_data, namelen + 1);
                 user_ret = 1;
                 goto fail;
         }
-        d->dynobjs.lsize++;
         uint32_t handle = idx + 1;
         xlog_trace(
                 "dyld: dyld:load_object succeeded for %.*s, handle %" PRIu32,
@@ -164,7 +175,11 @@ dyld_dlfcn_resolve_symbol(struct exec_context *ctx, struct host_instance *hi,
                 user_ret = 1;
                 goto fail;
         }
-        const struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
+        const struct dyld_dynamic_object *dobj = VEC_ELEM(d->dynobjs, idx);
+        if (dobj->obj == NULL) {
+                user_ret = 1;
+                goto fail;
+        }
 
         void *vp;
         host_ret = host_func_getptr(ctx, dyld_memory(d), namep, namelen, &vp);
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index f40922f..e58cec9 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -47,6 +47,8 @@ struct dyld_object {
         struct dyld *dyld;
         SLIST_ENTRY(struct dyld_object) q;
 
+        bool failed; /* loaded by a dlopen which failed */
+
         /* for tsort */
         bool visited;
         SLIST_ENTRY(struct dyld_object) tq;
-- 
2.43.0


From 866d61cff3a80e01022a36738f9fbb7b753b9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:34 +0000
Subject: [PATCH 24/29] fix: write modules with empty names or data

fwrite of zero bytes returns zero, which was taken for an error.
Writing a module that has an empty name or an empty data segment failed
with EIO.
---
 lib/module_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 9244cf7..3a41c6e 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -50,6 +50,9 @@ write_to_file(struct writer *w, const void *p, size_t sz)
         if (UINT32_MAX - w->size < sz) {
                 w->error = EOVERFLOW;
         }
+        if (sz == 0) {
+                return;
+        }
         size_t result = fwrite(p, sz, 1, w->fp);
         if (result != 1) {
                 w->error = ferror(w->fp);
-- 
2.43.0


From 538f559b0cadcaa0f795f76d280beaaef135be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:34 +0000
Subject: [PATCH 25/29] fix: write imported and exported tags

The writer left out the type of an imported tag and the kind of an
exported one, so that the resulting module could not be loaded.
---
 lib/module_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 3a41c6e..92edba7 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -220,6 +220,11 @@ write_importdesc(struct writer *w, const struct importdesc *desc)
         case 0x03:
                 write_globaltype(w, &desc->u.globaltype);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case 0x04:
+                write_tagtype(w, &desc->u.tagtype);
+                break;
+#endif
         default:
                 assert(0);
         }
@@ -262,6 +267,11 @@ write_exportdesc(struct writer *w, const struct exportdesc *desc)
         case EXTERNTYPE_GLOBAL:
                 WRITE_U8(0x03);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case EXTERNTYPE_TAG:
+                WRITE_U8(0x04);
+                break;
+#endif
         default:
                 assert(0);
         }
-- 
2.43.0


From 3fa0b501e900f92ad8f44472a1e52d9ac53e4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:34 +0000
Subject: [PATCH 26/29] fix: write element segments with expressions or without
 entries

Both ran into assertions in debug builds.
---
 lib/module_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 92edba7..a8ae23c 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -311,7 +311,7 @@ write_element(struct writer *w, const struct element *e)
                         break;
                 }
         } else {
-                assert(e->init_exprs != NULL);
+                assert(e->init_exprs != NULL || e->init_size == 0);
                 /* 4, 5, 6, 7 */
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 4, 6 */
@@ -391,6 +391,7 @@ write_element(struct writer *w, const struct element *e)
                 for (i = 0; i < e->init_size; i++) {
                         write_expr(w, &e->init_exprs[i]);
                 }
+                break;
         default:
                 assert(0);
         }
-- 
2.43.0


From b85505fe23d307d0f12ff841c94e9e129587b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:47 +0000
Subject: [PATCH 27/29] fix: always write the maximum of a shared memory

A shared memory has to have one.  The writer left it out when it was
UINT32_MAX, which is possible with a page size of one byte.
---
 lib/module_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index a8ae23c..a2c9c60 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -144,7 +144,8 @@ static void
 write_limits(struct writer *w, const struct limits *lim, uint8_t extra_flags,
              uint8_t shift)
 {
-        if (lim->max == UINT32_MAX) {
+        if (lim->max == UINT32_MAX &&
+            (extra_flags & MEMTYPE_FLAG_SHARED) == 0) {
                 WRITE_U8(0x00 | extra_flags);
                 WRITE_LEB_U32(lim->min);
         } else {
-- 
2.43.0


From f1e695ff32dc2720434d8a9131acdf9108f66198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:32 +0000
Subject: [PATCH 28/29] fix: reject repeated subsections of the name section

The previous subsection id was compared but never recorded. A module whose
name section repeats a subsection made the second name map overwrite the
first one: the first was leaked, and the debug build failed an assertion
while it printed the trap.
---
 lib/name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/name.c b/lib/name.c
index 4df6a38..177aadd 100644
--- a/lib/name.c
+++ b/lib/name.c
@@ -139,6 +139,7 @@ parse_name_section(struct nametable *table, const struct module *m)
                         ret = EINVAL;
                         goto fail;
                 }
+                prev = (int)name_type;
                 ret = read_leb_u32(&p, ep, &name_payload_len);
                 if (ret != 0) {
                         goto fail;
-- 
2.43.0


From 630209524d5522190e48d66da8cd7945e19466fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:31 +0000
Subject: [PATCH 29/29] fix: refuse arguments that do not fit the type of the
 parameter

A value above the range of i32 was passed to the function as 0.
---
 cli/repl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/repl.c b/cli/repl.c
index bffcc89..164c470 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -927,6 +927,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT32_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i32 = (uint32_t)u;
@@ -937,6 +938,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT64_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i64 = (uint64_t)u;
-- 
2.43.0

