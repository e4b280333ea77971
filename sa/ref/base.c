/* Vectors, lists, identifiers, heap accounting, time, waiting threads. */
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "bitmap.h"
#include "cell.h"
#include "cluster.h"
#include "context.h"
#include "exec.h"
#include "idalloc.h"
#include "instance.h"
#include "list.h"
#include "lock.h"
#include "mem.h"
#include "options.h"
#include "restart.h"
#include "shared_memory_impl.h"
#include "slist.h"
#include "suspend.h"
#include "timeutil.h"
#include "type.h"
#include "util.h"
#include "vec.h"

/* -- vectors: lsize elements in use of psize that exist */
struct rvec {
        void *p;
        uint32_t lsize;
        uint32_t psize;
};

int
ref_array_extend__0(struct mem_context *mctx, void **p, size_t size,
                    uint32_t old, uint32_t new)
{
        size_t bytes;
        if (__builtin_mul_overflow(size, (size_t)new, &bytes)) {
                return EOVERFLOW;
        }
        void *np = mem_extend(mctx, *p, size * old, bytes);
        if (np == NULL) {
                return ENOMEM;
        }
        *p = np;
        return 0;
}

int
ref_array_shrink__0(struct mem_context *mctx, void **p, size_t size,
                    uint32_t old, uint32_t new)
{
        void *np = NULL;
        if (new == 0) {
                mem_free(mctx, *p, size * old);
        } else {
                np = mem_shrink(mctx, *p, size * old, size * new);
                if (np == NULL) {
                        return ENOMEM;
                }
        }
        *p = np;
        return 0;
}

int
ref__vec_resize__0(struct mem_context *mctx, void *vec, size_t size,
                   uint32_t n)
{
        struct rvec *v = vec;
        if (n > v->psize) {
                int ret = array_extend(mctx, &v->p, size, v->psize, n);
                if (ret != 0) {
                        return ret;
                }
                v->psize = n;
        }
        if (n > v->lsize) {
                memset((uint8_t *)v->p + v->lsize * size, 0,
                       (n - v->lsize) * size);
        }
        v->lsize = n;
        return 0;
}

int
ref__vec_prealloc__0(struct mem_context *mctx, void *vec, size_t size,
                     uint32_t count)
{
        struct rvec *v = vec;
        uint32_t n;
        if (__builtin_add_overflow(v->lsize, count, &n)) {
                return EOVERFLOW;
        }
        if (n > v->psize) {
                int ret = array_extend(mctx, &v->p, size, v->psize, n);
                if (ret != 0) {
                        return ret;
                }
                v->psize = n;
        }
        return 0;
}

void
ref__vec_free__0(struct mem_context *mctx, void *vec, size_t size)
{
        struct rvec *v = vec;
        if (v->p != NULL) {
                array_shrink(mctx, &v->p, size, v->psize, 0);
        }
        v->lsize = 0;
        v->psize = 0;
}

/* -- bitmaps */
int
ref_bitmap_alloc__0(struct mem_context *mctx, struct bitmap *b, uint32_t n)
{
        if (n == 0) {
                b->data = NULL;
                return 0;
        }
        void *p = mem_calloc(mctx, HOWMANY(n, 32), 4);
        if (p == NULL) {
                return ENOMEM;
        }
        b->data = p;
        return 0;
}

void
ref_bitmap_free__0(struct mem_context *mctx, struct bitmap *b, uint32_t n)
{
        mem_free(mctx, b->data, HOWMANY(n, 32) * sizeof(uint32_t));
}

void
ref_bitmap_set__0(struct bitmap *b, uint32_t i)
{
        b->data[i / 32] |= 1U << (i % 32);
}

bool
ref_bitmap_test__0(const struct bitmap *b, uint32_t i)
{
        return (b->data[i / 32] & (1U << (i % 32))) != 0;
}

/* -- lists */
#define ENTRY(E, OFF) ((struct list_entry *)((uintptr_t)(E) + (OFF)))
void
ref_list_remove__0(struct list_head *h, void *elem, struct list_entry *e)
{
        *e->prevnextp = e->next;
        if (e->next == NULL) {
                h->tailnextp = e->prevnextp;
        } else {
                ENTRY(e->next, (uintptr_t)e - (uintptr_t)elem)->prevnextp =
                        e->prevnextp;
        }
}

void
ref_list_insert_tail__0(struct list_head *h, void *elem, struct list_entry *e)
{
        e->prevnextp = h->tailnextp;
        *h->tailnextp = elem;
        h->tailnextp = &e->next;
        e->next = NULL;
}

void
ref_list_insert_head__0(struct list_head *h, void *elem, struct list_entry *e)
{
        if (h->first == NULL) {
                h->tailnextp = &e->next;
        } else {
                ENTRY(h->first, (uintptr_t)e - (uintptr_t)elem)->prevnextp =
                        &e->next;
        }
        e->next = h->first;
        e->prevnextp = &h->first;
        h->first = elem;
}

void
ref_list_head_init__0(struct list_head *h)
{
        h->first = NULL;
        h->tailnextp = &h->first;
}

void
ref_slist_remove_head__0(struct slist_head *h, struct slist_entry *e)
{
        h->sh_first = e->se_next;
        if (e->se_next == NULL) {
                h->sh_tailnextp = &h->sh_first;
        }
}

void
ref_slist_remove__0(struct slist_head *h, struct slist_entry *prev,
                    struct slist_entry *e)
{
        if (prev == NULL) {
                slist_remove_head(h, e);
                return;
        }
        prev->se_next = e->se_next;
        if (h->sh_tailnextp == &e->se_next) {
                h->sh_tailnextp = &prev->se_next;
        }
}

void
ref_slist_insert_tail__0(struct slist_head *h, void *elem,
                         struct slist_entry *e)
{
        *h->sh_tailnextp = elem;
        h->sh_tailnextp = &e->se_next;
        e->se_next = NULL;
}

void
ref_slist_insert_head__0(struct slist_head *h, void *elem,
                         struct slist_entry *e)
{
        if (h->sh_first == NULL) {
                h->sh_tailnextp = &e->se_next;
        }
        e->se_next = h->sh_first;
        h->sh_first = elem;
}

void
ref_slist_head_init__0(struct slist_head *h)
{
        h->sh_first = NULL;
        h->sh_tailnextp = &h->sh_first;
}

/* -- identifiers: the slot of a free one holds (void *)1 */
void
ref_idalloc_init__0(struct idalloc *ida, uint32_t min, uint32_t max)
{
        memset(ida, 0, sizeof(*ida));
        ida->base = min;
        ida->maxid = max - min;
}

int
ref_idalloc_alloc__0(struct idalloc *ida, uint32_t *idp,
                     struct mem_context *mctx)
{
        uint32_t i;
        for (i = 0; i < ida->vec.lsize; i++) {
                if (ida->vec.p[i] == (void *)1) {
                        ida->vec.p[i] = NULL;
                        *idp = ida->base + i;
                        return 0;
                }
        }
        i = ida->vec.lsize;
        if (i > ida->maxid) {
                return ERANGE;
        }
        int ret = VEC_RESIZE(mctx, ida->vec, i + 1);
        if (ret != 0) {
                return ret;
        }
        ida->vec.p[i] = NULL;
        *idp = ida->base + i;
        return 0;
}

void
ref_idalloc_free__0(struct idalloc *ida, uint32_t id,
                    struct mem_context *mctx)
{
        ida->vec.p[id - ida->base] = (void *)1;
}

bool
ref_idalloc_test__0(struct idalloc *ida, uint32_t id)
{
        return id >= ida->base && id < ida->base + ida->vec.lsize &&
               ida->vec.p[id - ida->base] != (void *)1;
}

void
ref_idalloc_set_user__0(struct idalloc *ida, uint32_t id, void *p)
{
        ida->vec.p[id - ida->base] = p;
}

void *
ref_idalloc_get_user__0(struct idalloc *ida, uint32_t id)
{
        return ida->vec.p[id - ida->base];
}

/* -- heap accounting */
int mem_reserve(struct mem_context *, size_t);
int mem_reserve_one(struct mem_context *, size_t);
void mem_unreserve(struct mem_context *, size_t);
void mem_unreserve_one(struct mem_context *, size_t);

void
ref_mem_unreserve_one__0(struct mem_context *ctx, size_t n)
{
        atomic_fetch_sub(&ctx->allocated, n);
}

int
ref_mem_reserve_one__0(struct mem_context *ctx, size_t n)
{
        size_t old;
        size_t new;
        do {
                old = ctx->allocated;
                if (n > ctx->limit - old) {
                        return ENOMEM;
                }
                new = old + n;
        } while (!atomic_compare_exchange_weak(&ctx->allocated, &old, new));
#if defined(TOYWASM_ENABLE_HEAP_TRACKING_PEAK)
        while (true) {
                size_t peak = ctx->peak;
                if (peak >= new || atomic_compare_exchange_weak(
                                           &ctx->peak, &peak, new)) {
                        break;
                }
        }
#endif
        return 0;
}

void
ref_mem_unreserve__0(struct mem_context *ctx, size_t n)
{
        mem_unreserve_one(ctx, n);
        if (ctx->parent != NULL) {
                mem_unreserve(ctx->parent, n);
        }
}

void
ref_mem_unreserve__1(struct mem_context *ctx, size_t n)
{
        do {
                mem_unreserve_one(ctx, n);
                ctx = ctx->parent;
        } while (ctx != NULL);
}

void
ref_mem_unreserve__2(struct mem_context *ctx, size_t n)
{
        while (ctx != NULL) {
                mem_unreserve_one(ctx, n);
                ctx = ctx->parent;
        }
}

int
ref_mem_reserve__0(struct mem_context *ctx, size_t n)
{
        int ret = mem_reserve_one(ctx, n);
        if (ret == 0 && ctx->parent != NULL) {
                ret = mem_reserve(ctx->parent, n);
                if (ret != 0) {
                        mem_unreserve_one(ctx, n);
                }
        }
        return ret;
}

void
ref_mem_context_init__0(struct mem_context *ctx)
{
        ctx->allocated = 0;
        ctx->limit = SIZE_MAX;
#if defined(TOYWASM_ENABLE_HEAP_TRACKING_PEAK)
        ctx->peak = 0;
#endif
        ctx->parent = NULL;
}

int
ref_mem_context_setlimit__0(struct mem_context *ctx, size_t limit)
{
        if (ctx->allocated > limit) {
                return ENOMEM;
        }
        ctx->limit = limit;
        return 0;
}

void *
ref_mem_alloc__0(struct mem_context *ctx, size_t n)
{
        if (mem_reserve(ctx, n) != 0) {
                return NULL;
        }
        void *p = malloc(n);
        if (p == NULL) {
                mem_unreserve(ctx, n);
        }
        return p;
}

void *
ref_mem_zalloc__0(struct mem_context *ctx, size_t n)
{
        void *p = mem_alloc(ctx, n);
        if (p != NULL) {
                memset(p, 0, n);
        }
        return p;
}

void *
ref_mem_calloc__0(struct mem_context *ctx, size_t a, size_t b)
{
        size_t n;
        if (__builtin_mul_overflow(a, b, &n)) {
                return NULL;
        }
        return mem_zalloc(ctx, n);
}

void
ref_mem_free__0(struct mem_context *ctx, void *p, size_t n)
{
        if (p != NULL) {
                free(p);
                mem_unreserve(ctx, n);
        }
}

void *
ref_mem_extend__0(struct mem_context *ctx, void *p, size_t old, size_t new)
{
        if (mem_reserve(ctx, new - old) != 0) {
                return NULL;
        }
        p = realloc(p, new);
        if (p == NULL) {
                mem_unreserve(ctx, new - old);
        }
        return p;
}

void *
ref_mem_extend_zero__0(struct mem_context *ctx, void *p, size_t old,
                       size_t new)
{
        uint8_t *np = mem_extend(ctx, p, old, new);
        if (np != NULL) {
                memset(np + old, 0, new - old);
        }
        return np;
}

void *
ref_mem_shrink__0(struct mem_context *ctx, void *p, size_t old, size_t new)
{
        p = realloc(p, new);
        if (p != NULL) {
                mem_unreserve(ctx, old - new);
        }
        return p;
}

/* -- time */
int
ref_timespec_cmp__0(const struct timespec *a, const struct timespec *b)
{
        if (a->tv_sec != b->tv_sec) {
                return a->tv_sec < b->tv_sec ? -1 : 1;
        }
        if (a->tv_nsec == b->tv_nsec) {
                return 0;
        }
        return a->tv_nsec < b->tv_nsec ? -1 : 1;
}

int
ref_timespec_add__0(const struct timespec *a, const struct timespec *b,
                    struct timespec *c)
{
        long ns = a->tv_nsec + b->tv_nsec;
        uintmax_t s = (uintmax_t)a->tv_sec + b->tv_sec;
        if (ns >= 1000000000) {
                ns -= 1000000000;
                s++;
        }
        c->tv_nsec = ns;
        c->tv_sec = (time_t)s;
        if (c->tv_sec < 0 || timespec_cmp(c, a) < 0) {
                return EOVERFLOW;
        }
        return 0;
}

void
ref_timespec_sub__0(const struct timespec *a, const struct timespec *b,
                    struct timespec *c)
{
        long ns = a->tv_nsec - b->tv_nsec;
        time_t borrow = 0;
        if (a->tv_nsec < b->tv_nsec) {
                ns = a->tv_nsec + 1000000000 - b->tv_nsec;
                borrow = 1;
        }
        c->tv_nsec = ns;
        c->tv_sec = a->tv_sec - b->tv_sec - borrow;
}

int
ref_timespec_from_ns__0(struct timespec *a, uint64_t ns)
{
        uint64_t s = ns / 1000000000;
        uint64_t n = ns % 1000000000;
        if (s * 1000000000 + n != ns) {
                return EOVERFLOW;
        }
        a->tv_sec = (time_t)s;
        a->tv_nsec = (long)n;
        return 0;
}

uint64_t
ref_timespec_to_ms__0(const struct timespec *tv)
{
        uint64_t s = (uint64_t)tv->tv_sec;
        if (s > UINT64_MAX / 1000) {
                return UINT64_MAX;
        }
        uint64_t a = s * 1000;
        uint64_t b = tv->tv_nsec / 1000000;
        if (b > UINT64_MAX - a) {
                return UINT64_MAX;
        }
        return a + b;
}

int
ref_timespec_now__0(clockid_t id, struct timespec *a)
{
        if (clock_gettime(id, a) != 0) {
                return errno;
        }
        return 0;
}

int
ref_abstime_from_reltime_ns__0(clockid_t id, struct timespec *abs,
                               uint64_t ns)
{
        struct timespec now;
        struct timespec rel;
        int ret = timespec_from_ns(&rel, ns);
        if (ret != 0) {
                return ret;
        }
        ret = timespec_now(id, &now);
        if (ret != 0) {
                return ret;
        }
        return timespec_add(&now, &rel, abs);
}

int
ref_abstime_from_reltime_ms__0(clockid_t id, struct timespec *abs, int ms)
{
        return abstime_from_reltime_ns(id, abs, (uint64_t)ms * 1000000);
}

/* rounded up; a time that has passed is 0 */
int
ref_abstime_to_reltime_ms_roundup__0(clockid_t id, const struct timespec *abs,
                                     int *msp)
{
        struct timespec now;
        struct timespec rel;
        int ret = timespec_now(id, &now);
        if (ret != 0) {
                return ret;
        }
        if (timespec_cmp(abs, &now) < 0) {
                *msp = 0;
                return 0;
        }
        timespec_sub(abs, &now, &rel);
        if (rel.tv_sec > INT_MAX / 1000) {
                return EOVERFLOW;
        }
        int a = (int)(rel.tv_sec * 1000);
        int b = (int)((rel.tv_nsec + 999999) / 1000000);
        if (b > INT_MAX - a) {
                return EOVERFLOW;
        }
        *msp = a + b;
        return 0;
}

/* the time on the clock "to" as far from now as ts is on the clock "from" */
int
ref_convert_timespec__0(clockid_t from, clockid_t to,
                        const struct timespec *ts, struct timespec *result)
{
        struct timespec from_now;
        struct timespec to_now;
        struct timespec t;
        int ret = timespec_now(from, &from_now);
        if (ret != 0) {
                return ret;
        }
        ret = timespec_now(to, &to_now);
        if (ret != 0) {
                return ret;
        }
        if (timespec_cmp(ts, &from_now) >= 0) {
                timespec_sub(ts, &from_now, &t);
                return timespec_add(&t, &to_now, result);
        }
        timespec_sub(&from_now, ts, &t);
        if (timespec_cmp(&to_now, &t) < 0) {
                return EOVERFLOW;
        }
        timespec_sub(&to_now, &t, result);
        return 0;
}

int
ref_timespec_sleep__0(clockid_t id, const struct timespec *abs)
{
        while (true) {
                struct timespec now;
                struct timespec rel;
                int ret = timespec_now(id, &now);
                if (ret != 0) {
                        return ret;
                }
                if (timespec_cmp(abs, &now) <= 0) {
                        return ETIMEDOUT;
                }
                timespec_sub(abs, &now, &rel);
                if (nanosleep(&rel, NULL) != 0 && errno != EINTR) {
                        return errno;
                }
        }
}

/* -- what is left to do of an interrupted operation */
int
ref_restart_info_prealloc__0(struct exec_context *ctx)
{
        if (ctx->restarts.lsize < ctx->restarts.psize) {
                return 0;
        }
        int ret = VEC_PREALLOC(exec_mctx(ctx), ctx->restarts, 1);
        if (ret != 0) {
                return ret;
        }
        VEC_NEXTELEM(ctx->restarts).restart_type = RESTART_NONE;
        return 0;
}

void
ref_restart_info_clear__0(struct exec_context *ctx)
{
        if (ctx->restarts.lsize < ctx->restarts.psize) {
                VEC_NEXTELEM(ctx->restarts).restart_type = RESTART_NONE;
        }
}

bool
ref_restart_info_is_none__0(struct exec_context *ctx)
{
        if (ctx->restarts.lsize == ctx->restarts.psize) {
                return true;
        }
        return VEC_NEXTELEM(ctx->restarts).restart_type == RESTART_NONE;
}

/* -- clusters of threads */
void
ref_cluster_init__0(struct cluster *c)
{
        toywasm_mutex_init(&c->lock);
        toywasm_cv_init(&c->cv);
        c->nrunners = 0;
        atomic_init(&c->interrupt, 0);
        c->suspend_state = SUSPEND_STATE_NONE;
        c->nparked = 0;
        toywasm_cv_init(&c->stop_cv);
}

void
ref_cluster_join__0(struct cluster *c)
{
        toywasm_mutex_lock(&c->lock);
        while (c->nrunners > 0) {
                toywasm_cv_wait(&c->cv, &c->lock);
        }
        toywasm_mutex_unlock(&c->lock);
}

void
ref_cluster_add_thread__0(struct cluster *c)
{
        c->nrunners++;
}

/* whoever waits for threads to end or to stop counts again */
void
ref_cluster_remove_thread__0(struct cluster *c)
{
        c->nrunners--;
        if (c->nrunners == 0) {
                toywasm_cv_signal(&c->cv, &c->lock);
        }
        if (c->suspend_state == SUSPEND_STATE_STOPPING) {
                toywasm_cv_broadcast(&c->stop_cv, &c->lock);
        }
}

int
ref_suspend_check_interrupt__0(struct exec_context *ctx,
                               const struct cluster *c)
{
        if (c->suspend_state == SUSPEND_STATE_STOPPING) {
                return ETOYWASMRESTART;
        }
        return 0;
}

int
ref_check_interrupt_interval_ms__0(struct exec_context *ctx)
{
#if defined(TOYWASM_USE_USER_SCHED) || !defined(TOYWASM_PREALLOC_SHARED_MEMORY)
        int ms = 50;
        const uint32_t n = 5;
#else
        int ms = 300;
        const uint32_t n = 33;
#endif
        if (ctx->cluster != NULL) {
                const uint32_t nrunners = ctx->cluster->nrunners;
                if (nrunners > n) {
                        ms = 10 * nrunners;
                        if (ms > 5000) {
                                ms = 5000;
                        }
                }
        }
        return ms;
}

/* -- waiting for memory */
#struct "lib/waitlist.c" waiter
#struct "lib/waitlist.c" waiter_list
struct waiter_list *waiter_list_lookup(struct waiter_list_table *, uint32_t,
                                       struct toywasm_mutex **, bool);
void waiter_list_free(struct waiter_list_table *, struct waiter_list *);

struct waiter_list *
ref_waiter_list_lookup__0(struct waiter_list_table *tab, uint32_t ident,
                          struct toywasm_mutex **lockp, bool allocate)
{
        *lockp = atomics_mutex_getptr(tab, ident);
        struct waiter_list *l;
        for (l = tab->lists[0]; l != NULL; l = l->next) {
                if (l->ident == ident) {
                        return l;
                }
        }
        if (!allocate) {
                return NULL;
        }
        l = malloc(sizeof(*l));
        if (l == NULL) {
                return NULL;
        }
        LIST_HEAD_INIT(&l->waiters);
        l->ident = ident;
        l->nwaiters = 0;
        l->next = tab->lists[0];
        tab->lists[0] = l;
        return l;
}

void
ref_waiter_list_free__0(struct waiter_list_table *tab, struct waiter_list *l)
{
        struct waiter_list **pp = &tab->lists[0];
        struct waiter_list *x;
        for (x = *pp; x != NULL && x != l; x = *pp) {
                pp = &x->next;
        }
        *pp = x->next;
        free(x);
}

/* the oldest waiters on ident, no more than count; how many */
uint32_t
ref_atomics_notify__0(struct waiter_list_table *tab, uint32_t ident,
                      uint32_t count)
{
        struct toywasm_mutex *lock;
        struct waiter_list *l = waiter_list_lookup(tab, ident, &lock, false);
        if (l == NULL) {
                return 0;
        }
        struct waiter *w;
        uint32_t left = count;
        while (left > 0 && (w = LIST_FIRST(&l->waiters)) != NULL) {
                left--;
                LIST_REMOVE(&l->waiters, w, e);
                w->woken = true;
                toywasm_cv_signal(&w->cv, lock);
        }
        l->nwaiters -= count - left;
        if (l->nwaiters == 0) {
                waiter_list_free(tab, l);
        }
        return count - left;
}

/*
 * woken, or no longer on the list.  a waiter that was woken when the time
 * passed counts as woken.
 */
int
ref_atomics_wait__0(struct waiter_list_table *tab, uint32_t ident,
                    const struct timespec *abs)
{
        struct toywasm_mutex *lock;
        struct waiter_list *l = waiter_list_lookup(tab, ident, &lock, true);
        if (l == NULL) {
                return ENOMEM;
        }
        if (l->nwaiters == UINT32_MAX) {
                return EOVERFLOW;
        }
        struct waiter w;
        toywasm_cv_init(&w.cv);
        w.woken = false;
        LIST_INSERT_TAIL(&l->waiters, &w, e);
        l->nwaiters++;
        int ret = 0;
        while (!w.woken) {
                ret = toywasm_cv_timedwait(&w.cv, lock, abs);
                if (ret == ETIMEDOUT) {
                        if (w.woken) {
                                ret = 0;
                        }
                        break;
                }
        }
        if (ret != 0) {
                LIST_REMOVE(&l->waiters, &w, e);
                l->nwaiters--;
                if (l->nwaiters == 0) {
                        waiter_list_free(tab, l);
                }
        }
        toywasm_cv_destroy(&w.cv);
        return ret;
}

void memory_atomic_unlock(struct toywasm_mutex *);
void
ref_memory_atomic_unlock__0(struct toywasm_mutex *lock)
{
        if (lock != NULL) {
                toywasm_mutex_unlock(lock);
        }
}

int
ref_memory_notify__0(struct exec_context *ctx, uint32_t memidx, uint32_t addr,
                     uint32_t offset, uint32_t count, uint32_t *np)
{
        struct meminst *mi = VEC_ELEM(ctx->instance->mems, memidx);
        struct shared_meminst *shared = mi->shared;
        struct toywasm_mutex *lock;
        void *p;
        int ret = memory_atomic_getptr(ctx, memidx, addr, offset, 4, &p,
                                       &lock);
        if (ret != 0) {
                return ret;
        }
        uint32_t n = 0;
        if (shared != NULL) {
                n = atomics_notify(&shared->tab, addr + offset, count);
        }
        memory_atomic_unlock(lock);
        *np = n;
        return 0;
}

/*
 * 1 when the value differs, 0 when woken, 2 when the time passed.  the
 * comparison and the wait are under the lock.  waits no longer than the
 * interval at which interrupts are looked for; an interrupted wait keeps its
 * absolute time.
 */
int
ref_memory_wait__0(struct exec_context *ctx, uint32_t memidx, uint32_t addr,
                   uint32_t offset, uint64_t expected, uint32_t *resultp,
                   int64_t timeout_ns, bool is64)
{
        struct meminst *mi = VEC_ELEM(ctx->instance->mems, memidx);
        struct shared_meminst *shared = mi->shared;
        if (shared == NULL) {
                return trap_with_id(
                        ctx, TRAP_ATOMIC_WAIT_ON_NON_SHARED_MEMORY, "");
        }
        struct toywasm_mutex *lock = NULL;
        const struct timespec *abs = NULL;
        int ret = restart_info_prealloc(ctx);
        if (ret != 0) {
                return ret;
        }
        struct restart_info *restart = &VEC_NEXTELEM(ctx->restarts);
        if (restart->restart_type == RESTART_TIMER) {
                abs = &restart->restart_u.timer.abstimeout;
                restart->restart_type = RESTART_NONE;
        } else if (timeout_ns >= 0) {
                ret = abstime_from_reltime_ns(
                        CLOCK_REALTIME, &restart->restart_u.timer.abstimeout,
                        timeout_ns);
                if (ret != 0) {
                        goto fail;
                }
                abs = &restart->restart_u.timer.abstimeout;
        }
        void *p;
        ret = memory_atomic_getptr(ctx, memidx, addr, offset, is64 ? 8 : 4,
                                   &p, &lock);
        if (ret != 0) {
                return ret;
        }
        while (true) {
                uint64_t v = is64 ? *(_Atomic uint64_t *)p
                                  : *(_Atomic uint32_t *)p;
                if (v != expected) {
                        *resultp = 1;
                        ret = 0;
                        break;
                }
                ret = check_interrupt(ctx);
                if (ret != 0) {
                        break;
                }
                struct timespec next;
                ret = abstime_from_reltime_ms(
                        CLOCK_REALTIME, &next,
                        check_interrupt_interval_ms(ctx));
                if (ret != 0) {
                        break;
                }
                const struct timespec *until = &next;
                if (abs != NULL && timespec_cmp(&next, abs) >= 0) {
                        until = abs;
                }
                ret = atomics_wait(&shared->tab, addr + offset, until);
                if (ret == 0) {
                        *resultp = 0;
                        break;
                }
                if (ret != ETIMEDOUT) {
                        break;
                }
                if (until == abs) {
                        *resultp = 2;
                        ret = 0;
                        break;
                }
        }
fail:
        if (IS_RESTARTABLE(ret) && abs != NULL) {
                restart->restart_type = RESTART_TIMER;
        }
        memory_atomic_unlock(lock);
        return ret;
}

/* -- calls by the embedder */
int
ref_invoke__0(struct funcinst *fi, const struct resulttype *param,
              const struct resulttype *result, struct exec_context *ctx)
{
        const struct functype *ft = funcinst_functype(fi);
        if (param != NULL) {
                if (compare_resulttype(param, &ft->parameter) != 0) {
                        return EINVAL;
                }
                if (compare_resulttype(result, &ft->result) != 0) {
                        return EINVAL;
                }
        }
        ctx->event_u.call.func = fi;
        ctx->event = EXEC_EVENT_CALL;
        return ETOYWASMRESTART;
}

void
ref_data_drop__0(struct exec_context *ctx, uint32_t i)
{
        bitmap_set(&ctx->instance->data_dropped, i);
}

/* -- options */
void
ref_load_options_set_defaults__0(struct load_options *o)
{
        memset(o, 0, sizeof(*o));
        o->generate_jump_table = true;
        o->generate_localtype_cellidx = true;
        o->generate_resulttype_cellidx = true;
}

/* as many as can be counted */
void
ref_exec_options_set_defaults__0(struct exec_options *o)
{
        memset(o, 0, sizeof(*o));
        o->max_frames = UINT32_MAX;
        o->max_stackcells = UINT32_MAX;
}
