/* How an access to linear memory is checked and located. */
#include <errno.h>
#include <string.h>
#include "bitmap.h"
#include "exec.h"
#include "instance.h"
#include "mem.h"
#include "shared_memory_impl.h"
#include "suspend.h"
#include "type.h"
#include "util.h"

int memory_instance_getptr2(struct meminst *, uint32_t, uint32_t, uint32_t, void **, bool *);

/*
 * [ptr + offset, +size) without wrapping, within size_in_pages pages; the
 * part which is not allocated yet is allocated and zeroed.
 */
int
ref_memory_instance_getptr2__0(struct meminst *mi, uint32_t ptr,
                               uint32_t offset, uint32_t size, void **pp,
                               bool *movedp)
{
        const uint32_t shift = memtype_page_shift(mi->type);
        uint32_t ea;
        if (ADD_U32_OVERFLOW(ptr, offset, &ea)) {
                return ETOYWASMTRAP;
        }
        if (size == 0) {
                if (ea > 0 && (ea - 1) >> shift >= mi->size_in_pages) {
                        return ETOYWASMTRAP;
                }
        } else {
                uint32_t last;
                if (ADD_U32_OVERFLOW(ea, size - 1, &last)) {
                        return ETOYWASMTRAP;
                }
                if (last >= mi->allocated) {
                        if (last >> shift >= mi->size_in_pages) {
                                return ETOYWASMTRAP;
                        }
                        size_t need = (size_t)last + 1;
                        size_t have = mi->allocated;
                        void *np = mem_extend(mi->mctx, mi->data, have, need);
                        if (np == NULL) {
                                return ENOMEM;
                        }
                        memset((char *)np + have, 0, need - have);
                        mi->data = np;
                        if (movedp != NULL) {
                                *movedp = true;
                        }
                        mi->allocated = need;
                }
        }
        *pp = mi->data + ea;
        return 0;
}

int
ref_memory_getptr2__0(struct exec_context *ctx, uint32_t memidx, uint32_t ptr,
                      uint32_t offset, uint32_t size, void **pp, bool *movedp)
{
        struct meminst *mi = VEC_ELEM(ctx->instance->mems, memidx);
        int ret = memory_instance_getptr2(mi, ptr, offset, size, pp, movedp);
        if (ret == ETOYWASMTRAP) {
                return trap_with_id(ctx, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS, "");
        }
        return ret;
}

int
ref_memory_getptr__0(struct exec_context *ctx, uint32_t memidx, uint32_t ptr,
                     uint32_t offset, uint32_t size, void **pp)
{
        return memory_getptr2(ctx, memidx, ptr, offset, size, pp, NULL);
}

int
ref_memory_atomic_getptr__0(struct exec_context *ctx, uint32_t memidx,
                            uint32_t ptr, uint32_t offset, uint32_t size,
                            void **pp, struct toywasm_mutex **lockp)
{
        struct meminst *mi = VEC_ELEM(ctx->instance->mems, memidx);
        struct toywasm_mutex *lock = NULL;
        if (mi->shared != NULL && lockp != NULL) {
                lock = atomics_mutex_getptr(&mi->shared->tab, ptr + offset);
                toywasm_mutex_lock(lock);
        }
        int ret = memory_getptr2(ctx, memidx, ptr, offset, size, pp, NULL);
        if (ret == 0 && (ptr + offset) % size != 0) {
                ret = trap_with_id(ctx, TRAP_UNALIGNED_ATOMIC_OPERATION, "");
        }
        if (ret != 0) {
                if (lock != NULL) {
                        toywasm_mutex_unlock(lock);
                }
                return ret;
        }
        if (lockp != NULL) {
                *lockp = lock;
        }
        return 0;
}

/* copies [s, s+n) of a segment, empty once dropped, to [d, d+n) */
int
ref_memory_init__0(struct exec_context *ctx, uint32_t memidx,
                   uint32_t dataidx, uint32_t d, uint32_t s, uint32_t n)
{
        const struct instance *inst = ctx->instance;
        const struct data *data = &inst->module->datas[dataidx];
        bool dropped = bitmap_test(&inst->data_dropped, dataidx);
        if (s > data->init_size || n > data->init_size - s ||
            (dropped && (s != 0 || n != 0))) {
                return trap_with_id(ctx, TRAP_OUT_OF_BOUNDS_DATA_ACCESS, "");
        }
        void *p;
        int ret = memory_getptr2(ctx, memidx, d, 0, n, &p, NULL);
        if (ret != 0) {
                return ret;
        }
        memcpy(p, &data->init[s], n);
        return 0;
}

static uint32_t
grow(struct exec_context *ctx, struct meminst *mi,
                        uint32_t sz)
{
        const uint32_t shift = memtype_page_shift(mi->type);
        struct shared_meminst *shared = mi->shared;
        if (shared != NULL) {
                toywasm_mutex_lock(&shared->lock);
        }
        while (true) {
        uint32_t old = mi->size_in_pages;
        uint32_t new;
        if (ADD_U32_OVERFLOW(old, sz, &new) || new > mi->type->lim.max) {
                if (mi->shared != NULL) {
                        toywasm_mutex_unlock(&mi->shared->lock);
                }
                return (uint32_t)-1;
        }
        bool is_shared = mi->shared != NULL;
        if (new != old && (is_shared || new >= 4)) {
                struct cluster *c = ctx != NULL ? ctx->cluster : NULL;
                if (is_shared && c != NULL) {
                        if (mi->shared != NULL) {
                        toywasm_mutex_unlock(&mi->shared->lock);
                        }
                        suspend_threads(c);
                        if (mi->shared != NULL) {
                        toywasm_mutex_lock(&mi->shared->lock);
                        }
                        if (mi->size_in_pages != old) {
                                resume_threads(c);
                                continue;
                        }
                }
                bool ok = false;
                size_t bytes = (size_t)new << shift;
                if (bytes >> shift == new) {
                        void *np = mem_extend_zero(mi->mctx, mi->data,
                                                   mi->allocated, bytes);
                        if (np != NULL) {
                                mi->data = np;
                                mi->allocated = bytes;
                                ok = true;
                        }
                }
                if (is_shared && c != NULL) {
                        resume_threads(c);
                }
                if (!ok) {
                        if (mi->shared != NULL) {
                        toywasm_mutex_unlock(&mi->shared->lock);
                        }
                        return (uint32_t)-1;
                }
        }
        mi->size_in_pages = new;
        if (mi->shared != NULL) {
                toywasm_mutex_unlock(&mi->shared->lock);
        }
        return old;
        }
}

uint32_t
ref_memory_grow2__0(struct exec_context *ctx, uint32_t memidx, uint32_t sz)
{
        return grow(ctx, VEC_ELEM(ctx->instance->mems, memidx), sz);
}

uint32_t
ref_memory_grow__0(struct meminst *mi, uint32_t sz)
{
        return grow(NULL, mi, sz);
}
