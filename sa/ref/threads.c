/*
 * Guest threads: the identifiers and counts they hold, how they start and
 * end, and how an exit or a trap reaches all of them.
 */
#include <errno.h>
#include <pthread.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#include "cconv.h"
#include "cell.h"
#include "cluster.h"
#include "endian.h"
#include "exec.h"
#include "host_instance.h"
#include "idalloc.h"
#include "instance.h"
#include "lock.h"
#include "mem.h"
#include "module.h"
#include "suspend.h"
#include "type.h"
#include "usched.h"
#include "wasi.h"
#include "wasi_threads.h"

#struct "libwasi_threads/wasi_threads.c" wasi_threads_instance
#struct "libwasi_threads/wasi_threads.c" thread_arg

#define CALL                                                                  \
        struct exec_context *ctx, struct host_instance *hi,                   \
                const struct functype *ft, const struct cell *params,         \
                struct cell *results

void wasi_threads_instance_join(struct wasi_threads_instance *);
void wasi_threads_propagate_trap(struct wasi_threads_instance *,
                                 const struct trap_info *);
int exec_thread_start_func(struct exec_context *, const struct thread_arg *);
void done_thread_start_func(struct exec_context *, const struct thread_arg *,
                            int);
int wasi_thread_spawn_common(struct exec_context *,
                             struct wasi_threads_instance *, uint32_t,
                             uint32_t *);
void *runner(void *);
void user_runner_exec_done(struct exec_context *);
int user_runner_exec_start(struct thread_arg *);

HOST_FUNC_DECL(wasi_thread_spawn);
HOST_FUNC_DECL(wasi_thread_spawn_old);
HOST_FUNC_DECL(wasi_thread_exit);
#define NAME(s) {.nbytes = sizeof(s) - 1, .data = s}
static const struct name ref_threads_name = NAME("wasi");
static const struct host_func ref_threads_funcs[] = {
        {NAME("thread-spawn"), "(ii)", wasi_thread_spawn},
        {NAME("thread-spawn"), "(i)i", wasi_thread_spawn_old},
        {NAME("thread_spawn"), "(i)i", wasi_thread_spawn_old},
        {NAME("thread_exit"), "()", wasi_thread_exit},
};
static const struct host_module ref_threads_module = {
        .module_name = &ref_threads_name,
        .funcs = ref_threads_funcs,
        .nfuncs = 4,
};

/* identifiers are 1 to 2^29 - 1 */
int
ref_wasi_threads_instance_create__0(struct mem_context *mctx,
                                    struct wasi_threads_instance **instp)
{
        struct wasi_threads_instance *t = mem_zalloc(mctx, sizeof(*t));
        if (t == NULL) {
                return ENOMEM;
        }
        t->mctx = mctx;
        idalloc_init(&t->tids, 1, (UINT32_C(1) << 29) - 1);
        cluster_init(&t->cluster);
#if defined(TOYWASM_USE_USER_SCHED)
        sched_init(&t->sched);
#endif
        *instp = t;
        return 0;
}

void
ref_wasi_threads_instance_destroy__0(struct wasi_threads_instance *t)
{
        struct mem_context *mctx = t->mctx;
        idalloc_destroy(&t->tids, mctx);
        cluster_destroy(&t->cluster);
#if defined(TOYWASM_USE_USER_SCHED)
        sched_clear(&t->sched);
#endif
        mem_free(mctx, t, sizeof(*t));
}

void
ref_wasi_threads_instance_set_memory__0(struct wasi_threads_instance *t,
                                        struct meminst *mem)
{
        t->hi.memory = mem;
}

/* the caller is the first member of the cluster; the default is exit(0) */
void
ref_wasi_threads_setup_exec_context__0(struct wasi_threads_instance *t,
                                       struct exec_context *ctx)
{
        if (t != NULL) {
                ctx->cluster = &t->cluster;
                toywasm_mutex_lock(&t->cluster.lock);
                cluster_add_thread(&t->cluster);
                toywasm_mutex_unlock(&t->cluster.lock);
                t->cluster.interrupt = 0;
#if defined(TOYWASM_USE_USER_SCHED)
                ctx->sched = &t->sched;
#endif
                t->trap.trapid = TRAP_VOLUNTARY_EXIT;
        }
}

void
ref_wasi_threads_complete_exec__0(struct wasi_threads_instance *t,
                                  const struct trap_info **trapp)
{
        if (t == NULL) {
                return;
        }
        if (*trapp == NULL) {
                wasi_threads_instance_join(t);
                return;
        }
        wasi_threads_propagate_trap(t, *trapp);
        wasi_threads_instance_join(t);
        *trapp = &t->trap;
}

int
ref_wasi_threads_instance_set_thread_spawn_args__0(
        struct wasi_threads_instance *t, struct module *m,
        const struct import_object *imports)
{
        static const struct name start = {
                .nbytes = 17,
                .data = "wasi_thread_start",
        };
        uint32_t idx;
        if (module_find_export(m, &start, EXTERNTYPE_FUNC, &idx) == 0 &&
            check_functype_with_string(m, idx, "(ii)") == 0) {
                t->module = m;
                t->imports = imports;
                t->thread_start_funcidx = idx;
        }
        return 0;
}

/* everyone else is told to end, then waited for */
void
ref_wasi_threads_instance_join__0(struct wasi_threads_instance *t)
{
        toywasm_mutex_lock(&t->cluster.lock);
        cluster_set_interrupt(&t->cluster);
        cluster_remove_thread(&t->cluster);
        toywasm_mutex_unlock(&t->cluster.lock);
#if defined(TOYWASM_USE_USER_SCHED)
        sched_run(&t->sched, NULL);
#endif
        cluster_join(&t->cluster);
}

/* the first one that is not local to its thread counts */
void
ref_wasi_threads_propagate_trap__0(struct wasi_threads_instance *t,
                                   const struct trap_info *trap)
{
        if (trap->trapid != TRAP_VOLUNTARY_THREAD_EXIT) {
                toywasm_mutex_lock(&t->cluster.lock);
                if (cluster_set_interrupt(&t->cluster)) {
                        t->trap = *trap;
                }
                toywasm_mutex_unlock(&t->cluster.lock);
        }
}

int
ref_exec_thread_start_func__0(struct exec_context *ctx,
                              const struct thread_arg *arg)
{
        struct wasi_threads_instance *t = arg->wasi;
        struct val p[2];
        p[0].u.i32 = arg->tid;
        p[1].u.i32 = arg->user_arg;
        ctx->cluster = &t->cluster;
#if defined(TOYWASM_USE_USER_SCHED)
        ctx->sched = &t->sched;
#endif
        uint32_t idx = t->thread_start_funcidx;
        DEFINE_TYPES(static const, types, TYPE_i32, TYPE_i32);
        DEFINE_RESULTTYPE(static const, rt, &types, 2);
        int ret = exec_push_vals(ctx, &rt, p);
        if (ret == 0) {
                ret = instance_execute_func_nocheck(ctx, idx);
        }
        return ret;
}

/* what is done as the last step, by a thread that still counts as live */
static void
gone(struct wasi_threads_instance *t, uint32_t tid)
{
        toywasm_mutex_lock(&t->cluster.lock);
        idalloc_free(&t->tids, tid, t->mctx);
        cluster_remove_thread(&t->cluster);
        toywasm_mutex_unlock(&t->cluster.lock);
}

static void
gone2(struct wasi_threads_instance *t, uint32_t tid)
{
        toywasm_mutex_lock(&t->cluster.lock);
        cluster_remove_thread(&t->cluster);
        idalloc_free(&t->tids, tid, t->mctx);
        toywasm_mutex_unlock(&t->cluster.lock);
}

void
ref_done_thread_start_func__0(struct exec_context *ctx,
                              const struct thread_arg *arg, int ret)
{
        struct wasi_threads_instance *t = arg->wasi;
        struct instance *inst = arg->inst;
        uint32_t tid = arg->tid;
        if (ret == ETOYWASMTRAP) {
                wasi_threads_propagate_trap(t, &ctx->trap);
        }
        exec_context_clear(ctx);
        instance_destroy(inst);
        gone(t, tid);
}

void
ref_done_thread_start_func__1(struct exec_context *ctx,
                              const struct thread_arg *arg, int ret)
{
        struct wasi_threads_instance *t = arg->wasi;
        struct instance *inst = arg->inst;
        uint32_t tid = arg->tid;
        if (ret == ETOYWASMTRAP) {
                wasi_threads_propagate_trap(t, &ctx->trap);
        }
        exec_context_clear(ctx);
        instance_destroy(inst);
        gone2(t, tid);
}

#if defined(TOYWASM_USE_USER_SCHED)
void
ref_user_runner_exec_done__0(struct exec_context *ctx)
{
        struct thread_arg *arg = ctx->exec_done_arg;
        done_thread_start_func(ctx, arg, ctx->exec_ret);
        free(arg);
        free(ctx);
}

int
ref_user_runner_exec_start__0(struct thread_arg *arg)
{
        struct exec_context *ctx = malloc(sizeof(*ctx));
        if (ctx == NULL) {
                return ENOMEM;
        }
        exec_context_init(ctx, arg->inst, arg->mctx);
        ctx->exec_done = user_runner_exec_done;
        ctx->exec_done_arg = arg;
        int ret = exec_thread_start_func(ctx, arg);
        if (IS_RESTARTABLE(ret)) {
                sched_enqueue(&arg->wasi->sched, ctx);
        } else {
                ctx->exec_done(ctx);
        }
        return 0;
}

int
ref_user_runner_exec_start__1(struct thread_arg *arg)
{
        struct exec_context *ctx = malloc(sizeof(*ctx));
        if (ctx == NULL) {
                return ENOMEM;
        }
        exec_context_init(ctx, arg->inst, arg->mctx);
        ctx->exec_done = user_runner_exec_done;
        ctx->exec_done_arg = arg;
        int ret = exec_thread_start_func(ctx, arg);
        if (IS_RESTARTABLE(ret)) {
                sched_enqueue(&arg->wasi->sched, ctx);
        } else {
                ctx->exec_ret = ret;
                ctx->exec_done(ctx);
        }
        return 0;
}
#else
void *
ref_runner__0(void *vp)
{
        struct thread_arg *arg = vp;
        struct exec_context ctx;
        exec_context_init(&ctx, arg->inst, arg->mctx);
        int ret = exec_thread_start_func(&ctx, arg);
        while (IS_RESTARTABLE(ret)) {
                suspend_parked(ctx.cluster);
                ret = instance_execute_continue(&ctx);
        }
        done_thread_start_func(&ctx, arg, ret);
        free(arg);
        return NULL;
}
#endif

static int
begin(struct thread_arg *arg)
{
#if defined(TOYWASM_USE_USER_SCHED)
        return user_runner_exec_start(arg);
#else
        pthread_t t;
        int ret = pthread_create(&t, NULL, runner, arg);
        if (ret == 0) {
                pthread_detach(t);
        }
        return ret;
#endif
}

#define SPAWN(GONE)                                                           \
        struct instance *inst = NULL;                                         \
        struct thread_arg *arg = NULL;                                        \
        uint32_t tid;                                                         \
        int ret;                                                              \
        if (t->module != ctx->instance->module) {                             \
                ret = EPROTO;                                                 \
                goto fail;                                                    \
        }                                                                     \
        arg = malloc(sizeof(*arg));                                           \
        if (arg == NULL) {                                                    \
                ret = ENOMEM;                                                 \
                goto fail;                                                    \
        }                                                                     \
        struct report report;                                                 \
        report_init(&report);                                                 \
        ret = instance_create(t->mctx, t->module, &inst, t->imports,          \
                              &report);                                       \
        report_clear(&report);                                                \
        if (ret != 0) {                                                       \
                goto fail;                                                    \
        }                                                                     \
        toywasm_mutex_lock(&t->cluster.lock);                                 \
        ret = idalloc_alloc(&t->tids, &tid, t->mctx);                         \
        if (ret == 0) {                                                       \
                cluster_add_thread(&t->cluster);                              \
        }                                                                     \
        toywasm_mutex_unlock(&t->cluster.lock);                               \
        if (ret != 0) {                                                       \
                goto fail;                                                    \
        }                                                                     \
        arg->wasi = t;                                                        \
        arg->inst = inst;                                                     \
        arg->tid = tid;                                                       \
        arg->user_arg = user_arg;                                             \
        arg->mctx = ctx->mctx;                                                \
        ret = begin(arg);                                                     \
        if (ret != 0) {                                                       \
                GONE(t, tid);                                                 \
                goto fail;                                                    \
        }                                                                     \
        free(NULL);                                                           \
        *tidp = tid;                                                          \
        return 0;                                                             \
fail:                                                                         \
        if (inst != NULL) {                                                   \
                instance_destroy(inst);                                       \
        }                                                                     \
        free(arg);                                                            \
        return ret

int
ref_wasi_thread_spawn_common__0(struct exec_context *ctx,
                                struct wasi_threads_instance *t,
                                uint32_t user_arg, uint32_t *tidp)
{
        SPAWN(gone);
}

int
ref_wasi_thread_spawn_common__1(struct exec_context *ctx,
                                struct wasi_threads_instance *t,
                                uint32_t user_arg, uint32_t *tidp)
{
        SPAWN(gone2);
}

int
ref_wasi_thread_spawn_old__0(CALL)
{
        struct wasi_threads_instance *t = (struct wasi_threads_instance *)hi;
        struct val *v = calloc(ft->parameter.ntypes, sizeof(*v));
        if (v == NULL) {
                return ENOMEM;
        }
        vals_from_cells(v, params, &ft->parameter);
        uint32_t tid;
        int ret = wasi_thread_spawn_common(ctx, t, v[0].u.i32, &tid);
        struct val x;
        x.u.i32 = ret != 0 ? -wasi_convert_errno(ret) : tid;
        uint32_t csz;
        uint32_t at = resulttype_cellidx(&ft->result, 0, &csz);
        val_to_cells(&x, &results[at], csz);
        free(v);
        return 0;
}

/* a byte that tells an error, then at offset 4 the error or the identifier */
int
ref_wasi_thread_spawn__0(CALL)
{
        struct wasi_threads_instance *t = (struct wasi_threads_instance *)hi;
        struct val *v = calloc(ft->parameter.ntypes, sizeof(*v));
        if (v == NULL) {
                return ENOMEM;
        }
        vals_from_cells(v, params, &ft->parameter);
        uint32_t out = v[1].u.i32;
        uint32_t tid;
        int ret = wasi_thread_spawn_common(ctx, t, v[0].u.i32, &tid);
        uint8_t r[8];
        memset(r, 0, sizeof(r));
        if (ret != 0) {
                r[0] = 1;
                r[4] = 0;
        } else {
                r[0] = 0;
                le32_encode(r + 4, tid);
        }
        free(v);
        return host_func_copyout(ctx, t->hi.memory, r, out, 8, 4);
}

int
ref_wasi_thread_exit__0(CALL)
{
        return trap_with_id(ctx, TRAP_VOLUNTARY_THREAD_EXIT, "thread_exit");
}

int
ref_import_object_create_for_wasi_threads__0(struct mem_context *mctx,
                                             struct wasi_threads_instance *t,
                                             struct import_object **impp)
{
        return import_object_create_for_host_funcs(mctx, &ref_threads_module,
                                                   1, &t->hi, impp);
}
