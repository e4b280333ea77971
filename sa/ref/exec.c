/* Calls, branches, exceptions and the main loop of the interpreter. */
#include <errno.h>
#include <string.h>
#include "cell.h"
#include "cluster.h"
#include "context.h"
#include "exec.h"
#include "expr.h"
#include "insn.h"
#include "leb128.h"
#include "platform.h"
#include "restart.h"
#include "suspend.h"
#include "timeutil.h"
#include "type.h"
#include "usched.h"
#include "util.h"

/* static functions of lib/exec.c */
int stack_prealloc(struct exec_context *, uint32_t);
void set_current_frame(struct exec_context *, const struct funcframe *,
                       const struct expr_exec_info *);
const struct jump *jump_table_lookup(const struct expr_exec_info *, uint32_t);
const struct jump *jump_lookup(struct exec_context *,
                               const struct expr_exec_info *, uint32_t);
int do_wasm_call(struct exec_context *, const struct funcinst *);
int do_host_call(struct exec_context *, const struct funcinst *);
int do_call(struct exec_context *, const struct funcinst *);
int do_return_call(struct exec_context *, const struct funcinst *);
int find_catch(const struct exec_context *, const struct taginst *,
               uint32_t *, uint32_t *, bool *);
int do_exception(struct exec_context *);
void get_arity_for_blocktype(const struct module *, int64_t, uint32_t *,
                             uint32_t *);
bool block_exit(struct exec_context *, uint32_t, bool, uint32_t *,
                uint32_t *);
bool cached_block_exit(struct exec_context *, uint32_t, bool, uint32_t *,
                       uint32_t *);
bool branch_to_label(struct exec_context *, uint32_t, bool, uint32_t *,
                     uint32_t *);
void do_branch(struct exec_context *, uint32_t, bool);
int restart_insn(struct exec_context *);
void adjust_check_interval(struct exec_context *, const struct timespec *,
                           const struct timespec *);
void return_to_hostfunc(struct exec_context *);

/* -- frames */

/* within the configured number of cells */
int
ref_stack_prealloc__0(struct exec_context *ctx, uint32_t count)
{
        if (ctx->options.max_stackcells - ctx->stack.lsize < count) {
                return trap_with_id(ctx, TRAP_TOO_MANY_STACKCELLS, "");
        }
        return VEC_PREALLOC(exec_mctx(ctx), ctx->stack, count);
}

/* everything cached about the frame describes the frame */
void
ref_set_current_frame__0(struct exec_context *ctx,
                         const struct funcframe *frame,
                         const struct expr_exec_info *ei)
{
        struct instance *inst = frame->instance;
        if (ctx->instance->module != inst->module) {
#if defined(TOYWASM_USE_JUMP_CACHE)
                ctx->jump_cache = NULL;
#endif
#if TOYWASM_JUMP_CACHE2_SIZE > 0
                memset(&ctx->cache, 0, sizeof(ctx->cache));
#endif
        }
        ctx->instance = inst;
        if (frame->funcidx == FUNCIDX_INVALID) {
                ctx->ei = ei;
        } else {
                const struct module *m = inst->module;
                const struct functype *ft =
                        module_functype(m, frame->funcidx);
                const struct func *func =
                        &m->funcs[frame->funcidx - m->nimportedfuncs];
#if defined(TOYWASM_USE_LOCALS_FAST_PATH)
                const uint16_t *p = ft->parameter.cellidx.cellidxes;
                const uint16_t *l = func->localtype.cellidx.cellidxes;
                ctx->fast = p != NULL && l != NULL;
                if (ctx->fast) {
                        struct local_info_fast *f = &ctx->local_u.fast;
                        f->nparams = ft->parameter.ntypes;
                        f->paramcsz = resulttype_cellsize(&ft->parameter);
                        f->paramtype_cellidxes = p;
                        f->localtype_cellidxes = l;
                } else
#endif
                {
                        struct local_info_slow *s = &ctx->local_u.slow;
                        s->paramtype = &ft->parameter;
                        s->localtype = &func->localtype;
                }
                ctx->ei = &func->e.ei;
        }
#if defined(TOYWASM_USE_LOCALS_CACHE)
        ctx->current_locals = frame_locals(ctx, frame);
#endif
}

/*
 * room for the frame, its labels, locals and operands is made before
 * anything is committed; parameters come first, the other locals are zero.
 */
int
ref_frame_enter__0(struct exec_context *ctx, struct instance *inst,
                   uint32_t funcidx, const struct expr_exec_info *ei,
                   const struct localtype *localtype,
                   const struct resulttype *paramtype, uint32_t nresults,
                   const struct cell *params)
{
        int ret;
        if (ctx->frames.lsize == ctx->options.max_frames) {
                return trap_with_id(ctx, TRAP_TOO_MANY_FRAMES, "");
        }
        ret = VEC_PREALLOC(exec_mctx(ctx), ctx->frames, 1);
        if (ret != 0) {
                return ret;
        }
        const uint32_t nparams = resulttype_cellsize(paramtype);
        const uint32_t nothers = localtype_cellsize(localtype);
        const uint32_t nlocals = nparams + nothers;
        struct funcframe *frame = &VEC_NEXTELEM(ctx->frames);
        frame->instance = inst;
        frame->funcidx = funcidx;
        frame->nresults = nresults;
        frame->labelidx = ctx->labels.lsize;
#if defined(TOYWASM_USE_SEPARATE_LOCALS)
        frame->localidx = ctx->locals.lsize;
        ret = VEC_PREALLOC(exec_mctx(ctx), ctx->locals, nlocals);
        if (ret != 0) {
                return ret;
        }
#endif
        if (ei->maxlabels > 1) {
                frame->labelidx = ctx->labels.lsize;
                ret = VEC_PREALLOC(exec_mctx(ctx), ctx->labels,
                                   ei->maxlabels - 1);
                if (ret != 0) {
                        return ret;
                }
        }
        if (ctx->frames.lsize > 0) {
                frame->callerpc = ptr2pc(ctx->instance->module, ctx->p);
        }
        frame->height = ctx->stack.lsize;
#if defined(TOYWASM_USE_SEPARATE_LOCALS)
        struct cell *locals = &VEC_ELEM(ctx->locals, frame->localidx);
        cells_copy(locals, params, nparams);
        ret = stack_prealloc(ctx, ei->maxcells);
        if (ret != 0) {
                return ret;
        }
#else
        const bool inplace = params == &VEC_NEXTELEM(ctx->stack);
        ret = stack_prealloc(ctx, nlocals + ei->maxcells);
        if (ret != 0) {
                return ret;
        }
        struct cell *locals = &VEC_NEXTELEM(ctx->stack);
        if (!inplace) {
                cells_copy(locals, params, nparams);
        }
#endif
        cells_zero(locals + nparams, nlocals - nparams);
        ctx->frames.lsize++;
#if defined(TOYWASM_USE_SEPARATE_LOCALS)
        ctx->locals.lsize += nlocals;
#else
        ctx->stack.lsize += nlocals;
#endif
        set_current_frame(ctx, frame, ei);
        return 0;
}

void
ref_frame_exit__0(struct exec_context *ctx)
{
        struct funcframe *frame = VEC_POP(ctx->frames);
        if (ctx->frames.lsize > 0) {
                set_current_frame(ctx, &VEC_LASTELEM(ctx->frames), NULL);
                ctx->p = pc2ptr(ctx->instance->module, frame->callerpc);
        }
        ctx->labels.lsize = frame->labelidx;
#if defined(TOYWASM_USE_SEPARATE_LOCALS)
        ctx->locals.lsize = frame->localidx;
#endif
}

/* -- calls */

const struct func *
ref_funcinst_func__0(const struct funcinst *fi)
{
        const struct module *m = fi->u.wasm.instance->module;
        return &m->funcs[fi->u.wasm.funcidx - m->nimportedfuncs];
}

int
ref_do_wasm_call__0(struct exec_context *ctx, const struct funcinst *fi)
{
        const struct functype *ft = funcinst_functype(fi);
        const struct func *func = funcinst_func(fi);
        uint32_t nparams = resulttype_cellsize(&ft->parameter);
        uint32_t nresults = resulttype_cellsize(&ft->result);
        ctx->stack.lsize -= nparams;
        int ret = frame_enter(ctx, fi->u.wasm.instance, fi->u.wasm.funcidx,
                              &func->e.ei, &func->localtype, &ft->parameter,
                              nresults, &VEC_NEXTELEM(ctx->stack));
        if (ret != 0) {
                return ret;
        }
        ctx->p = func->e.start;
        return 0;
}

/* the arguments stay until the call succeeded; room for the results */
int
ref_do_host_call__0(struct exec_context *ctx, const struct funcinst *fi)
{
        const struct functype *ft = funcinst_functype(fi);
        uint32_t nparams = resulttype_cellsize(&ft->parameter);
        uint32_t nresults = resulttype_cellsize(&ft->result);
        int ret;
        if (nresults > nparams) {
                ret = stack_prealloc(ctx, nresults - nparams);
                if (ret != 0) {
                        return ret;
                }
        }
        struct cell *p = &VEC_ELEM(ctx->stack, ctx->stack.lsize - nparams);
        ret = fi->u.host.func(ctx, fi->u.host.instance, ft, p, p);
        if (ret != 0) {
                return ret;
        }
        ctx->stack.lsize -= nparams;
        ctx->stack.lsize += nresults;
        return 0;
}

int
ref_do_call__0(struct exec_context *ctx, const struct funcinst *fi)
{
        if (fi->is_host) {
                return do_host_call(ctx, fi);
        }
        return do_wasm_call(ctx, fi);
}

/* leaves the caller's frame, keeping only the arguments */
int
ref_do_return_call__0(struct exec_context *ctx, const struct funcinst *fi)
{
        uint32_t height = VEC_LASTELEM(ctx->frames).height;
        frame_exit(ctx);
        const struct functype *ft = funcinst_functype(fi);
        rewind_stack(ctx, height, resulttype_cellsize(&ft->parameter));
        return do_call(ctx, fi);
}

/* -- exceptions */

/*
 * from the innermost label outwards, up to the frame of a host function:
 * the first clause that names the tag, or any exception
 */
int
ref_find_catch__0(const struct exec_context *ctx, const struct taginst *tag,
                  uint32_t *frameidxp, uint32_t *labelidxp, bool *allp)
{
        uint32_t frameidx = ctx->frames.lsize - 1;
        uint32_t top = ctx->labels.lsize;
        uint32_t i;
        for (i = 0; i < ctx->labels.lsize; i++) {
                uint32_t labelidx = ctx->labels.lsize - i - 1;
                const struct funcframe *frame;
                for (;;) {
                        frame = &VEC_ELEM(ctx->frames, frameidx);
                        if (frame->labelidx <= labelidx) {
                                break;
                        }
                        if (frameidx == ctx->bottom) {
                                return ENOENT;
                        }
                        top = frame->labelidx;
                        frameidx--;
                }
                const struct instance *inst = frame->instance;
                const uint8_t *p = pc2ptr(inst->module,
                                          VEC_ELEM(ctx->labels, labelidx).pc);
                if (*p++ != FRAME_OP_TRY_TABLE) {
                        continue;
                }
                read_leb_s33_nocheck(&p);
                const uint32_t n = read_leb_u32_nocheck(&p);
                uint32_t j;
                for (j = 0; j < n; j++) {
                        const uint8_t op = *p++;
                        const struct taginst *t = NULL;
                        switch (op) {
                        case CATCH:
                        case CATCH_REF:
                                t = VEC_ELEM(inst->tags,
                                             read_leb_u32_nocheck(&p));
                                break;
                        }
                        uint32_t l = read_leb_u32_nocheck(&p);
                        if (t == NULL || t == tag) {
                                *frameidxp = frameidx;
                                *labelidxp = l + (top - labelidx);
                                *allp = t == NULL;
                                return 0;
                        }
                }
        }
        return ENOENT;
}

/*
 * Leave the frames above the handler's, branch to its label, and put the
 * arguments of the exception, then the exception where the label wants it.
 */
int
ref_do_exception__0(struct exec_context *ctx)
{
        uint32_t exn = valtype_cellsize(TYPE_exnref);
        const struct cell *exc =
                &VEC_ELEM(ctx->stack, ctx->stack.lsize - exn);
        ctx->stack.lsize -= exn;
        const struct taginst *tag;
        memcpy(&tag, exception_tag_ptr((const struct wasm_exception *)exc),
               sizeof(tag));
        if (tag == NULL) {
                return trap_with_id(ctx, TRAP_THROW_REF_NULL, "");
        }
        uint32_t frameidx;
        uint32_t labelidx;
        bool all;
        if (find_catch(ctx, tag, &frameidx, &labelidx, &all) != 0) {
                return trap_with_id(ctx, TRAP_UNCAUGHT_EXCEPTION, "");
        }
        while (frameidx + 1 < ctx->frames.lsize) {
                frame_exit(ctx);
        }
        uint32_t height;
        uint32_t arity;
        struct funcframe *frame = &VEC_LASTELEM(ctx->frames);
        if (ctx->labels.lsize - labelidx == frame->labelidx) {
                frame_exit(ctx);
                height = frame->height;
                arity = frame->nresults;
        } else {
                branch_to_label(ctx, labelidx, false, &height, &arity);
        }
        uint32_t csz = 0;
        if (!all) {
                csz = resulttype_cellsize(&taginst_functype(tag)->parameter);
        }
        struct cell *dst = &VEC_ELEM(ctx->stack, height);
        if (arity != csz) {
                cells_move(dst + csz, exc, exn);
                exc = dst + csz;
        }
        cells_move(dst, exc, csz);
        ctx->stack.lsize = height + arity;
        return 0;
}

/* -- branches */

const struct jump *
ref_jump_table_lookup__0(const struct expr_exec_info *ei, uint32_t pc)
{
        uint32_t left = 0;
        uint32_t right = ei->njumps;
        while (true) {
                uint32_t mid = (left + right) / 2;
                const struct jump *j = &ei->jumps[mid];
                if (j->pc == pc) {
                        return j;
                }
                if (j->pc < pc) {
                        left = mid + 1;
                } else {
                        right = mid;
                }
        }
}

const struct jump *
ref_jump_lookup__0(struct exec_context *ctx, const struct expr_exec_info *ei,
                   uint32_t pc)
{
        const struct jump *j;
#if defined(TOYWASM_USE_JUMP_CACHE)
        j = ctx->jump_cache;
        if (j != NULL && j->pc == pc) {
                return j;
        }
#endif
        j = jump_table_lookup(ei, pc);
#if defined(TOYWASM_USE_JUMP_CACHE)
        ctx->jump_cache = j;
#endif
        return j;
}

/* cells of the parameters and results of a block */
void
ref_get_arity_for_blocktype__0(const struct module *m, int64_t bt,
                               uint32_t *paramp, uint32_t *resultp)
{
        if (bt < 0) {
                uint8_t t = (uint8_t)(bt & 0x7f);
                *paramp = 0;
                *resultp = t == 0x40 ? 0 : valtype_cellsize(t);
                return;
        }
        const struct functype *ft = &m->types[bt];
        *paramp = resulttype_cellsize(&ft->parameter);
        *resultp = resulttype_cellsize(&ft->result);
}

/* x x x y y y r r -> x x x r r */
void
ref_rewind_stack__0(struct exec_context *ctx, uint32_t height, uint32_t arity)
{
        if (height + arity == ctx->stack.lsize) {
                return;
        }
        cells_move(&VEC_ELEM(ctx->stack, height),
                   &VEC_ELEM(ctx->stack, ctx->stack.lsize - arity), arity);
        ctx->stack.lsize = height + arity;
}

void
ref_rewind_stack__1(struct exec_context *ctx, uint32_t height, uint32_t arity)
{
        cells_move(&VEC_ELEM(ctx->stack, height),
                   &VEC_ELEM(ctx->stack, ctx->stack.lsize - arity), arity);
        ctx->stack.lsize = height + arity;
}

/*
 * a loop continues at its start with its parameters, any other block after
 * its end with its results; an if whose condition is false at its else,
 * where it has one, and stays in the block.
 */
bool
ref_block_exit__0(struct exec_context *ctx, uint32_t pc, bool goto_else,
                  uint32_t *paramp, uint32_t *arityp)
{
        const struct module *const m = ctx->instance->module;
        const uint8_t *const start = pc2ptr(m, pc);
        const uint8_t *p = start;
        const uint8_t op = *p++;
        uint32_t param;
        uint32_t result;
        if (op == FRAME_OP_LOOP) {
                get_arity_for_blocktype(m, read_leb_s33_nocheck(&p), &param,
                                        &result);
                ctx->p = start;
                *paramp = param;
                *arityp = param;
                return false;
        }
        int64_t bt;
        const struct expr_exec_info *const ei = ctx->ei;
        if (ei->jumps != NULL) {
                const struct jump *j = jump_lookup(ctx, ei, pc);
                if (goto_else && j[1].targetpc != 0) {
                        ctx->p = pc2ptr(ctx->instance->module, j[1].targetpc);
                        return true;
                }
                ctx->p = pc2ptr(ctx->instance->module, j->targetpc);
                bt = read_leb_s33_nocheck(&p);
        } else {
                bt = read_leb_s33_nocheck(&p);
                p = start;
                bool stay = skip_expr(&p, goto_else);
                ctx->p = p;
                if (stay) {
                        return true;
                }
        }
        get_arity_for_blocktype(m, bt, &param, &result);
        *paramp = param;
        *arityp = result;
        return false;
}

/* what was found before for this block and kind of jump is used again */
bool
ref_cached_block_exit__0(struct exec_context *ctx, uint32_t pc,
                         bool goto_else, uint32_t *paramp, uint32_t *arityp)
{
        uint32_t param;
        uint32_t arity;
#if TOYWASM_JUMP_CACHE2_SIZE > 0
        uint32_t key = pc + goto_else;
        struct jump_cache *c = &ctx->cache[key % ARRAYCOUNT(ctx->cache)];
        if (c->key == key) {
                ctx->p = c->target;
                if (c->stay_in_block) {
                        return true;
                }
                *paramp = c->param_arity;
                *arityp = c->arity;
                return false;
        }
#endif
        bool stay = block_exit(ctx, pc, goto_else, &param, &arity);
#if TOYWASM_JUMP_CACHE2_SIZE > 0
        const uint8_t *target = ctx->p;
        c->key = key;
        c->stay_in_block = stay;
        c->param_arity = stay ? 0 : param;
        c->arity = stay ? 0 : arity;
        c->target = target;
#endif
        if (stay) {
                return true;
        }
        *paramp = param;
        *arityp = arity;
        return false;
}

bool
ref_branch_to_label__0(struct exec_context *ctx, uint32_t labelidx,
                       bool goto_else, uint32_t *heightp, uint32_t *arityp)
{
        const struct label *l =
                &VEC_ELEM(ctx->labels, ctx->labels.lsize - labelidx - 1);
        uint32_t param;
        uint32_t arity;
        if (cached_block_exit(ctx, l->pc, goto_else, &param, &arity)) {
                return true;
        }
        ctx->labels.lsize -= labelidx + 1;
        *heightp = l->height - param;
        *arityp = arity;
        return false;
}

/* the outermost label is the function itself */
void
ref_do_branch__0(struct exec_context *ctx, uint32_t labelidx, bool goto_else)
{
        struct funcframe *frame = &VEC_LASTELEM(ctx->frames);
        uint32_t height;
        uint32_t arity;
        if (ctx->labels.lsize - labelidx == frame->labelidx) {
                frame_exit(ctx);
                height = frame->height;
                arity = frame->nresults;
        } else if (branch_to_label(ctx, labelidx, goto_else, &height,
                                   &arity)) {
                return;
        }
        rewind_stack(ctx, height, arity);
}

/* to after the matching end, or the else of the outermost block */
bool
ref_skip_expr__0(const uint8_t **pp, bool goto_else)
{
        const uint8_t *p = *pp;
        uint32_t level = 0;
        while (true) {
                switch (read_insn_nocheck(&p)) {
                case FRAME_OP_BLOCK:
                case FRAME_OP_LOOP:
                case FRAME_OP_IF:
                case FRAME_OP_TRY_TABLE:
                        level++;
                        break;
                case FRAME_OP_ELSE:
                        if (goto_else && level == 1) {
                                *pp = p;
                                return true;
                        }
                        break;
                case FRAME_OP_END:
                        if (level == 1) {
                                *pp = p;
                                return false;
                        }
                        level--;
                        break;
                }
        }
}

/* the size recorded for the last annotation not after p */
uint32_t
ref_find_type_annotation__0(struct exec_context *ctx, const uint8_t *p)
{
        const struct type_annotations *an = &ctx->ei->type_annotations;
        if (an->ntypes == 0) {
                return an->default_size;
        }
        const uint32_t pc = ptr2pc(ctx->instance->module, p);
        uint32_t i;
        for (i = 0; i < an->ntypes; i++) {
                if (pc < an->types[i].pc) {
                        break;
                }
        }
        if (i == 0) {
                return an->default_size;
        }
        return an->types[i - 1].size;
}

/* -- the main loop */

int
ref_restart_insn__0(struct exec_context *ctx)
{
        ctx->event = EXEC_EVENT_NONE;
#if defined(TOYWASM_USE_SEPARATE_EXECUTE)
        return ctx->event_u.restart_insn.fetch_exec(
                ctx->p, &VEC_NEXTELEM(ctx->stack), ctx);
#else
        struct context c;
        memset(&c, 0, sizeof(c));
        c.exec = ctx;
        return ctx->event_u.restart_insn.process(&ctx->p, NULL, &c);
#endif
}

/* a request by the embedder, the cluster or the scheduler */
int
ref_check_interrupt__0(struct exec_context *ctx)
{
        if (ctx->intrp != NULL && *ctx->intrp != 0) {
                if (ctx->user_intr_delay_count < ctx->user_intr_delay) {
                        ctx->user_intr_delay_count++;
                } else {
                        ctx->user_intr_delay_count = 0;
                        return ETOYWASMUSERINTERRUPT;
                }
        }
        if (ctx->cluster != NULL) {
                int ret = cluster_check_interrupt(ctx, ctx->cluster);
                if (ret != 0) {
                        return ret;
                }
        }
#if defined(TOYWASM_USE_USER_SCHED)
        if (ctx->sched != NULL && sched_need_resched(ctx->sched)) {
                return ETOYWASMRESTART;
        }
#endif
        return 0;
}

int
ref_cluster_check_interrupt__0(struct exec_context *ctx,
                               const struct cluster *c)
{
        if (c->interrupt) {
                return trap_with_id(ctx, TRAP_VOLUNTARY_THREAD_EXIT, "");
        }
        return suspend_check_interrupt(ctx, c);
}

bool
ref_cluster_set_interrupt__0(struct cluster *c)
{
        if (c->interrupt) {
                return false;
        }
        c->interrupt = 1;
        return true;
}

/* never 0, halved or doubled */
void
ref_adjust_check_interval__0(struct exec_context *ctx,
                             const struct timespec *now,
                             const struct timespec *last)
{
        struct timespec diff;
        timespec_sub(now, last, &diff);
        uint64_t ms = timespec_to_ms(&diff);
        uint32_t n = ctx->check_interval;
        uint32_t want = check_interrupt_interval_ms(ctx);
        if (ms < want / 2) {
                n = n <= UINT32_MAX / 2 ? n * 2 : UINT32_MAX;
        } else if (ms / 2 > want) {
                n /= 2;
                if (n < 1) {
                        n = 1;
                }
        }
        ctx->check_interval = n;
}

/* back to the host function that made the call */
void
ref_return_to_hostfunc__0(struct exec_context *ctx)
{
        struct restart_hostfunc *hf =
                &VEC_POP(ctx->restarts)->restart_u.hostfunc;
        ctx->bottom = hf->saved_bottom;
        ctx->stack.lsize -= hf->stack_adj;
        ctx->event_u.call.func = hf->func;
        ctx->event = EXEC_EVENT_CALL;
}

int
ref_exec_expr__0(uint32_t funcidx, const struct expr *expr,
                 const struct localtype *localtype,
                 const struct resulttype *paramtype, uint32_t nresults,
                 const struct cell *params, struct exec_context *ctx)
{
        int ret = frame_enter(ctx, ctx->instance, funcidx, &expr->ei,
                              localtype, paramtype, nresults, params);
        if (ret != 0) {
                return ret;
        }
        ctx->p = expr->start;
        return exec_expr_continue(ctx);
}

/*
 * carry out the pending event, stop when the bottom frame is left, ask for
 * interrupts every check_interval rounds, go on with the next instruction.
 * an event is pending until it succeeded; a tail call is a call once the
 * caller's frame is gone.
 */
int
ref_exec_expr_continue__0(struct exec_context *ctx)
{
        struct timespec last;
        bool has_last = false;
        uint32_t n = ctx->check_interval;
        while (true) {
                int ret;
                switch (ctx->event) {
                case EXEC_EVENT_RETURN_CALL:
                        ret = do_return_call(ctx, ctx->event_u.call.func);
                        if (ret != 0) {
                                if (IS_RESTARTABLE(ret)) {
                                        ctx->event = EXEC_EVENT_CALL;
                                }
                                return ret;
                        }
                        break;
                case EXEC_EVENT_EXCEPTION:
                        ret = do_exception(ctx);
                        if (ret != 0) {
                                return ret;
                        }
                        break;
                case EXEC_EVENT_CALL:
                        ret = do_call(ctx, ctx->event_u.call.func);
                        if (ret != 0) {
                                return ret;
                        }
                        break;
                case EXEC_EVENT_BRANCH:
                        do_branch(ctx, ctx->event_u.branch.index,
                                  ctx->event_u.branch.goto_else);
                        break;
                case EXEC_EVENT_RESTART_INSN:
                        ret = restart_insn(ctx);
                        if (ret != 0) {
                                return ret;
                        }
                        continue;
                case EXEC_EVENT_NONE:
                        break;
                }
                ctx->event = EXEC_EVENT_NONE;
                if (ctx->frames.lsize == ctx->bottom) {
                        if (ctx->restarts.lsize == 0) {
                                return 0;
                        }
                        return_to_hostfunc(ctx);
                        continue;
                }
                n--;
                if (n == 0) {
                        struct timespec now;
                        ret = timespec_now(CLOCK_MONOTONIC, &now);
                        if (ret != 0) {
                                return ret;
                        }
                        if (has_last) {
                                adjust_check_interval(ctx, &now, &last);
                        }
                        last = now;
                        has_last = true;
                        ret = check_interrupt(ctx);
                        if (ret != 0) {
                                return ret;
                        }
                        n = ctx->check_interval;
                }
                ret = fetch_exec_next_insn(ctx->p, &VEC_NEXTELEM(ctx->stack),
                                           ctx);
                if (ret != 0) {
                        return ret;
                }
        }
}

/* -- values in and out */

int
ref_exec_push_vals__0(struct exec_context *ctx, const struct resulttype *rt,
                      const struct val *vals)
{
        uint32_t n = resulttype_cellsize(rt);
        int ret = stack_prealloc(ctx, n);
        if (ret != 0) {
                return ret;
        }
        vals_to_cells(vals, &VEC_NEXTELEM(ctx->stack), rt);
        ctx->stack.lsize += n;
        return 0;
}

void
ref_exec_pop_vals__0(struct exec_context *ctx, const struct resulttype *rt,
                     struct val *vals)
{
        ctx->stack.lsize -= resulttype_cellsize(rt);
        vals_from_cells(vals, &VEC_NEXTELEM(ctx->stack), rt);
}
