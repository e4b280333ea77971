/*
 * Instructions on tables, locals, globals, references and control flow.
 *
 * ref_OP__K is the K-th accepted form of the instruction OP.
 */
#include <errno.h>
#include <string.h>
#include "cell.h"
#include "context.h"
#include "expr.h"
#include "exec.h"
#include "insn.h"
#include "instance.h"
#include "leb128.h"
#include "module.h"
#include "restart.h"
#include "type.h"
#include "util.h"

#define OP(NAME)                                                              \
        int ref_##NAME(const uint8_t *p, struct cell *stack,                  \
                       struct exec_context *ctx);                             \
        int ref_##NAME(const uint8_t *p, struct cell *stack,                  \
                       struct exec_context *ctx)
/* on to the next instruction */
#define NEXT                                                                  \
        __attribute__((musttail)) return fetch_exec_next_insn(p, stack, ctx)
/* back to the main loop, which carries out ctx->event */
#define EVENT                                                                 \
        ctx->stack.lsize = (uint32_t)(stack - ctx->stack.p);                  \
        ctx->p = p;                                                           \
        return 0
#define FAIL(x)                                                               \
        do {                                                                  \
                int fail_ = (x);                                              \
                if (fail_ != 0) {                                             \
                        ctx->p = p;                                           \
                        return fail_;                                         \
                }                                                             \
        } while (0)
#define U32 read_leb_u32_nocheck(&p)

static inline uint32_t
pop32(struct cell **stackp)
{
        uint32_t x;
        *stackp -= 1;
        memcpy(&x, *stackp, 4);
        return x;
}

static inline void
push32(struct cell **stackp, uint32_t x)
{
        memcpy(*stackp, &x, 4);
        *stackp += 1;
}

static inline void
popv(struct cell **stackp, struct val *v, uint32_t n)
{
        *stackp -= n;
        val_from_cells(v, *stackp, n);
}

static inline void
pushv(struct cell **stackp, const struct val *v, uint32_t n)
{
        val_to_cells(v, *stackp, n);
        *stackp += n;
}

#define TABLE(i) VEC_ELEM(ctx->instance->tables, i)
#define ELEMSZ(i)                                                             \
        valtype_cellsize(module_tabletype(ctx->instance->module, i)->et)

/* -- tables */

OP(table_get__0)
{
        uint32_t t = U32;
        uint32_t i = pop32(&stack);
        FAIL(table_access(ctx, t, i, 1));
        struct val v;
        table_get(TABLE(t), i, &v);
        pushv(&stack, &v, ELEMSZ(t));
        NEXT;
}

OP(table_set__0)
{
        uint32_t t = U32;
        struct val v;
        popv(&stack, &v, ELEMSZ(t));
        uint32_t i = pop32(&stack);
        FAIL(table_access(ctx, t, i, 1));
        table_set(TABLE(t), i, &v);
        NEXT;
}

OP(table_size__0)
{
        push32(&stack, TABLE(U32)->size);
        NEXT;
}

OP(table_grow__0)
{
        uint32_t t = U32;
        uint32_t n = pop32(&stack);
        struct val v;
        popv(&stack, &v, ELEMSZ(t));
        push32(&stack, table_grow(TABLE(t), &v, n));
        NEXT;
}

OP(table_fill__0)
{
        uint32_t t = U32;
        uint32_t n = pop32(&stack);
        struct val v;
        popv(&stack, &v, ELEMSZ(t));
        uint32_t i = pop32(&stack);
        FAIL(table_access(ctx, t, i, n));
        struct tableinst *ti = TABLE(t);
        uint32_t end = i + n;
        uint32_t csz = valtype_cellsize(ti->type->et);
        for (; i < end; i++) {
                val_to_cells(&v, &ti->cells[(size_t)i * csz], csz);
        }
        NEXT;
}

/* the access above was in range: i + n does not wrap */
OP(table_fill__1)
{
        uint32_t t = U32;
        uint32_t n = pop32(&stack);
        struct val v;
        popv(&stack, &v, ELEMSZ(t));
        uint32_t i = pop32(&stack);
        FAIL(table_access(ctx, t, i, n));
        struct tableinst *ti = TABLE(t);
        uint32_t csz = valtype_cellsize(ti->type->et);
        uint32_t k;
        for (k = 0; k < n; k++) {
                val_to_cells(&v, &ti->cells[((size_t)i + k) * csz], csz);
        }
        NEXT;
}

OP(table_fill__2)
{
        uint32_t t = U32;
        uint32_t n = pop32(&stack);
        struct val v;
        popv(&stack, &v, ELEMSZ(t));
        uint32_t i = pop32(&stack);
        FAIL(table_access(ctx, t, i, n));
        struct tableinst *ti = TABLE(t);
        uint32_t csz = valtype_cellsize(ti->type->et);
        uint32_t k;
        for (k = 0; k < n; k++) {
                val_to_cells(&v, &ti->cells[(size_t)(i + k) * csz], csz);
        }
        NEXT;
}

OP(table_copy__0)
{
        uint32_t td = U32;
        uint32_t ts = U32;
        uint32_t n = pop32(&stack);
        uint32_t s = pop32(&stack);
        uint32_t d = pop32(&stack);
        FAIL(table_access(ctx, td, d, n));
        FAIL(table_access(ctx, ts, s, n));
        struct tableinst *dst = TABLE(td);
        struct tableinst *src = TABLE(ts);
        size_t csz = valtype_cellsize(src->type->et);
        cells_move(&dst->cells[d * csz], &src->cells[s * csz], n * csz);
        NEXT;
}

OP(table_copy__1)
{
        uint32_t td = U32;
        uint32_t ts = U32;
        uint32_t n = pop32(&stack);
        uint32_t s = pop32(&stack);
        uint32_t d = pop32(&stack);
        FAIL(table_access(ctx, ts, s, n));
        FAIL(table_access(ctx, td, d, n));
        struct tableinst *dst = TABLE(td);
        struct tableinst *src = TABLE(ts);
        size_t csz = valtype_cellsize(src->type->et);
        cells_move(&dst->cells[d * csz], &src->cells[s * csz], n * csz);
        NEXT;
}

/* -- calls */

#define FUNC(i) VEC_ELEM(ctx->instance->funcs, i)

OP(call__0)
{
        ctx->event_u.call.func = FUNC(U32);
        ctx->event = EXEC_EVENT_CALL;
        EVENT;
}

OP(return_call__0)
{
        ctx->event_u.call.func = FUNC(U32);
        ctx->event = EXEC_EVENT_RETURN_CALL;
        EVENT;
}

#define INDIRECT(WHAT)                                                        \
        uint32_t type = U32;                                                  \
        uint32_t table = U32;                                                 \
        uint32_t i = pop32(&stack);                                           \
        const struct funcinst *fi;                                            \
        FAIL(table_get_func(ctx, TABLE(table), i,                             \
                            &ctx->instance->module->types[type], &fi));       \
        ctx->event_u.call.func = fi;                                          \
        ctx->event = WHAT;                                                    \
        EVENT

OP(call_indirect__0)
{
        INDIRECT(EXEC_EVENT_CALL);
}

OP(return_call_indirect__0)
{
        INDIRECT(EXEC_EVENT_RETURN_CALL);
}

/* -- structured control */

static inline void
branch(struct exec_context *ctx, uint32_t index, bool goto_else)
{
        ctx->event_u.branch.index = index;
        ctx->event_u.branch.goto_else = goto_else;
        ctx->event = EXEC_EVENT_BRANCH;
}

static inline uint32_t
nlabels(struct exec_context *ctx)
{
        return ctx->labels.lsize - VEC_LASTELEM(ctx->frames).labelidx;
}

/* opcode: where the instruction begins */
static inline void
label(struct exec_context *ctx, const uint8_t *opcode, struct cell *stack)
{
        struct label *l = &VEC_NEXTELEM(ctx->labels);
        ctx->labels.lsize++;
        l->pc = ptr2pc(ctx->instance->module, opcode);
        l->height = (uint32_t)(stack - ctx->stack.p);
}

OP(unreachable__0)
{
        return trap_with_id(ctx, TRAP_UNREACHABLE, "");
}

OP(nop__0)
{
        NEXT;
}

OP(block__0)
{
        const uint8_t *op = p - 1;
        read_leb_s33_nocheck(&p);
        label(ctx, op, stack);
        NEXT;
}

OP(loop__0)
{
        const uint8_t *op = p - 1;
        read_leb_s33_nocheck(&p);
        label(ctx, op, stack);
        NEXT;
}

OP(if__0)
{
        const uint8_t *op = p - 1;
        read_leb_s33_nocheck(&p);
        uint32_t c = pop32(&stack);
        label(ctx, op, stack);
        if (c == 0) {
                branch(ctx, 0, true);
                EVENT;
        }
        NEXT;
}

OP(else__0)
{
        branch(ctx, 0, false);
        EVENT;
}

OP(end__0)
{
        if (nlabels(ctx) == 0) {
                branch(ctx, 0, false);
                EVENT;
        }
        ctx->labels.lsize--;
        NEXT;
}

OP(end__1)
{
        if (ctx->labels.lsize > VEC_LASTELEM(ctx->frames).labelidx) {
                ctx->labels.lsize--;
                NEXT;
        }
        branch(ctx, nlabels(ctx), false);
        EVENT;
}

OP(br__0)
{
        branch(ctx, U32, false);
        EVENT;
}

OP(br_if__0)
{
        uint32_t l = U32;
        if (pop32(&stack) != 0) {
                branch(ctx, l, false);
                EVENT;
        }
        NEXT;
}

/* the l-th of n labels, or the default after them */
OP(br_table__0)
{
        uint32_t n = U32;
        uint32_t l = pop32(&stack);
        if (l > n) {
                l = n;
        }
        uint32_t x;
        for (;;) {
                x = U32;
                if (l == 0) {
                        break;
                }
                l--;
        }
        branch(ctx, x, false);
        EVENT;
}

OP(br_table__1)
{
        uint32_t n = U32;
        uint32_t l = pop32(&stack);
        if (l > n) {
                l = n;
        }
        uint32_t x = U32;
        for (; l > 0; l--) {
                x = U32;
        }
        branch(ctx, x, false);
        EVENT;
}

OP(return__0)
{
        branch(ctx, nlabels(ctx), false);
        EVENT;
}

/* -- exceptions */

OP(throw__0)
{
        uint32_t t = U32;
        const struct module *m = ctx->instance->module;
        const struct functype *ft =
                module_tagtype_functype(m, module_tagtype(m, t));
        /* the arguments become the first cells of the exception */
        stack += valtype_cellsize(TYPE_exnref) -
                 resulttype_cellsize(&ft->parameter);
        const struct taginst *ti = VEC_ELEM(ctx->instance->tags, t);
        struct wasm_exception *e =
                (void *)(stack - valtype_cellsize(TYPE_exnref));
        memcpy(exception_tag_ptr(e), &ti, sizeof(ti));
        ctx->event = EXEC_EVENT_EXCEPTION;
        EVENT;
}

OP(throw__1)
{
        uint32_t t = U32;
        const struct module *m = ctx->instance->module;
        const struct functype *ft =
                module_tagtype_functype(m, module_tagtype(m, t));
        uint32_t exn = valtype_cellsize(TYPE_exnref);
        ctx->stack.lsize = (uint32_t)(stack - ctx->stack.p);
        ctx->stack.lsize += exn - resulttype_cellsize(&ft->parameter);
        const struct taginst *ti = VEC_ELEM(ctx->instance->tags, t);
        struct wasm_exception *e =
                (void *)&VEC_ELEM(ctx->stack, ctx->stack.lsize - exn);
        memcpy(exception_tag_ptr(e), &ti, sizeof(ti));
        ctx->event = EXEC_EVENT_EXCEPTION;
        ctx->p = p;
        return 0;
}

/* a block; its handlers are read when an exception is thrown */
OP(try_table__0)
{
        const uint8_t *op = p - 1;
        read_leb_s33_nocheck(&p);
        uint32_t n = U32;
        uint32_t i;
        for (i = 0; i < n; i++) {
                switch (*p++) {
                case CATCH:
                case CATCH_REF:
                        U32;
                        break;
                }
                U32;
        }
        label(ctx, op, stack);
        NEXT;
}

OP(throw_ref__0)
{
        ctx->event = EXEC_EVENT_EXCEPTION;
        EVENT;
}

/* -- operands, locals, globals, references */

OP(drop__0)
{
        stack -= find_type_annotation(ctx, p);
        NEXT;
}

OP(select__0)
{
        uint32_t c = pop32(&stack);
        uint32_t csz = find_type_annotation(ctx, p);
        struct val a, b;
        popv(&stack, &b, csz);
        popv(&stack, &a, csz);
        pushv(&stack, c != 0 ? &a : &b, csz);
        NEXT;
}

OP(select_t__0)
{
        U32;
        uint32_t csz = valtype_cellsize(*p++);
        uint32_t c = pop32(&stack);
        struct val a, b;
        popv(&stack, &b, csz);
        popv(&stack, &a, csz);
        pushv(&stack, c != 0 ? &a : &b, csz);
        NEXT;
}

OP(local_get__0)
{
        uint32_t csz;
        uint32_t i = frame_locals_cellidx(ctx, U32, &csz);
        cells_copy(stack, &ctx->current_locals[i], csz);
        stack += csz;
        NEXT;
}

OP(local_set__0)
{
        uint32_t csz;
        uint32_t i = frame_locals_cellidx(ctx, U32, &csz);
        stack -= csz;
        cells_copy(&ctx->current_locals[i], stack, csz);
        NEXT;
}

OP(local_tee__0)
{
        uint32_t csz;
        uint32_t i = frame_locals_cellidx(ctx, U32, &csz);
        cells_copy(&ctx->current_locals[i], stack - csz, csz);
        NEXT;
}

OP(global_get__0)
{
        uint32_t i = U32;
        struct val v;
        global_get(VEC_ELEM(ctx->instance->globals, i), &v);
        pushv(&stack, &v,
              valtype_cellsize(
                      module_globaltype(ctx->instance->module, i)->t));
        NEXT;
}

OP(global_set__0)
{
        uint32_t i = U32;
        struct val v;
        popv(&stack, &v,
             valtype_cellsize(
                     module_globaltype(ctx->instance->module, i)->t));
        global_set(VEC_ELEM(ctx->instance->globals, i), &v);
        NEXT;
}

OP(ref_null__0)
{
        struct val v;
        memset(&v, 0, sizeof(v));
        pushv(&stack, &v, valtype_cellsize(*p++));
        NEXT;
}

OP(ref_is_null__0)
{
        uint32_t csz = find_type_annotation(ctx, p);
        struct val v;
        popv(&stack, &v, csz);
        struct val r;
        switch (csz) {
        case EXTERNREF_NCELLS:
                r.u.i32 = v.u.funcref.func == NULL;
                break;
        case EXNREF_NCELLS:
                r.u.i32 = v.u.exnref.tag == NULL;
                break;
        }
        pushv(&stack, &r, 1);
        NEXT;
}

OP(ref_func__0)
{
        struct val v;
        v.u.funcref.func = FUNC(U32);
        memcpy(stack, &v, sizeof(v.u.funcref));
        stack += EXTERNREF_NCELLS;
        NEXT;
}

/* -- memories */

OP(memory_size__0)
{
        push32(&stack, VEC_ELEM(ctx->instance->mems, U32)->size_in_pages);
        NEXT;
}

/* both ranges checked; where one moved while the other was located, again */
OP(memory_copy__0)
{
        uint32_t md = U32;
        uint32_t ms = U32;
        uint32_t n = pop32(&stack);
        uint32_t s = pop32(&stack);
        uint32_t d = pop32(&stack);
        void *sp, *dp;
        bool moved;
        do {
                FAIL(memory_getptr(ctx, ms, s, 0, n, &sp));
                moved = false;
                FAIL(memory_getptr2(ctx, md, d, 0, n, &dp, &moved));
        } while (moved);
        memmove(dp, sp, n);
        NEXT;
}
