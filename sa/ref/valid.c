/*
 * The type stack and the control stack of the validator, and the types that
 * labels carry.
 */
#include <errno.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#include "bitmap.h"
#include "cell.h"
#include "context.h"
#include "expr_parser.h"
#include "insn.h"
#include "load_context.h"
#include "mem.h"
#include "module.h"
#include "options.h"
#include "report.h"
#include "type.h"
#include "util.h"
#include "validation.h"
#include "vec.h"

#define CSZ(x) valtype_cellsize(x)

/*
 * The deepest stack of reachable code is what a frame reserves for.
 */
static void
push1(enum valtype type, const struct ctrlframe *fr,
      struct validation_context *ctx)
{
        const bool unreachable = fr->unreachable;
        ctx->valtypes.p[ctx->valtypes.lsize++] = type;
        if (!unreachable) {
                uint32_t n = ctx->ncells + CSZ(type);
                ctx->ncells = n;
                if (n > ctx->ei->maxcells) {
                        ctx->ei->maxcells = n;
                }
        }
}

/*
 * Nothing below the height of the innermost block can be taken.  In
 * unreachable code whatever is asked for is there.  An unknown type matches
 * every type, ANYREF every reference.
 */
static int
pop1(enum valtype want, enum valtype *out, const struct ctrlframe *fr,
     struct validation_context *ctx)
{
        const bool unreachable = fr->unreachable;
        if (ctx->valtypes.lsize == fr->height) {
                if (!unreachable) {
                        return validation_failure(ctx, "");
                }
                *out = TYPE_UNKNOWN;
                return 0;
        }
        enum valtype t = ctx->valtypes.p[--ctx->valtypes.lsize];
        if (!unreachable) {
                ctx->ncells -= CSZ(t);
        }
        if (want == TYPE_UNKNOWN || t == TYPE_UNKNOWN || t == want ||
            (want == TYPE_ANYREF && is_reftype(t))) {
                *out = t;
                return 0;
        }
        return validation_failure(ctx, "");
}

#define TOP(ctx) (&(ctx)->cframes.p[(ctx)->cframes.lsize - 1])

int
ref_push_valtype__0(enum valtype type, struct validation_context *ctx)
{
        int ret = _vec_prealloc(validation_mctx(ctx), &ctx->valtypes,
                                sizeof(*ctx->valtypes.p), 1);
        if (ret == 0) {
                push1(type, TOP(ctx), ctx);
        }
        return ret;
}

int
ref_pop_valtype__0(enum valtype want, enum valtype *out,
                   struct validation_context *ctx)
{
        return pop1(want, out, TOP(ctx), ctx);
}

int
ref_push_valtypes__0(const struct resulttype *types,
                     struct validation_context *ctx)
{
        uint32_t i;
        int ret = _vec_prealloc(validation_mctx(ctx), &ctx->valtypes,
                                sizeof(*ctx->valtypes.p), types->ntypes);
        if (ret != 0) {
                return ret;
        }
        const struct ctrlframe *fr = TOP(ctx);
        for (i = 0; i < types->ntypes; i++) {
                push1(types->types[i], fr, ctx);
        }
        return 0;
}

/* the last one is on top */
int
ref_pop_valtypes__0(const struct resulttype *types,
                    struct validation_context *ctx)
{
        const struct ctrlframe *fr = TOP(ctx);
        uint32_t left;
        for (left = types->ntypes; left > 0; left--) {
                enum valtype t;
                int ret = pop1(types->types[left - 1], &t, fr, ctx);
                if (ret != 0) {
                        return ret;
                }
        }
        return 0;
}

int
ref_peek_valtypes__0(const struct resulttype *types,
                     struct validation_context *ctx)
{
        uint32_t height = ctx->valtypes.lsize;
        uint32_t ncells = ctx->ncells;
        int ret = pop_valtypes(types, ctx);
        ctx->valtypes.lsize = height;
        ctx->ncells = ncells;
        return ret;
}

/*
 * Blocks that are left forward have an entry in the jump table, "if" a
 * second one for where its "else" is.
 */
int
ref_push_ctrlframe__0(uint32_t pc, enum ctrlframe_op op, uint32_t slot,
                      struct resulttype *start, struct resulttype *end,
                      struct validation_context *ctx)
{
        struct expr_exec_info *ei;
        uint32_t n;
        int ret = _vec_prealloc(validation_mctx(ctx), &ctx->cframes,
                                sizeof(*ctx->cframes.p), 1);
        if (ret != 0) {
                return ret;
        }
        ei = ctx->ei;
        if (!ctx->options->generate_jump_table) {
                n = 0;
        } else {
                switch (op) {
                case FRAME_OP_IF:
                        n = 2;
                        break;
                case FRAME_OP_INVOKE:
                case FRAME_OP_ELSE:
                case FRAME_OP_EMPTY_ELSE:
                case FRAME_OP_LOOP:
                        n = 0;
                        break;
                default:
                        n = 1;
                        break;
                }
        }
        if (n > 0) {
                ret = array_extend(validation_mctx(ctx), (void **)&ei->jumps,
                                   sizeof(*ei->jumps), ei->njumps,
                                   ei->njumps + n);
                if (ret != 0) {
                        return ret;
                }
                slot = ei->njumps;
                ei->njumps = slot + n;
                ei->jumps[slot].pc = pc;
                ei->jumps[slot].targetpc = 0;
                if (n == 2) {
                        ei->jumps[slot + 1].pc = pc + 1;
                        ei->jumps[slot + 1].targetpc = 0;
                }
        }
        struct ctrlframe *fr = &ctx->cframes.p[ctx->cframes.lsize++];
        fr->op = op;
        fr->jumpslot = slot;
        fr->start_types = start;
        fr->end_types = end;
        fr->unreachable = false;
        fr->height = ctx->valtypes.lsize;
        fr->height_cell = ctx->ncells;
        if (ctx->cframes.lsize > ei->maxlabels) {
                ei->maxlabels = ctx->cframes.lsize;
        }
        return start != NULL ? push_valtypes(start, ctx) : 0;
}

int
ref_pop_ctrlframe__0(uint32_t pc, bool is_else, struct ctrlframe *out,
                     struct validation_context *ctx)
{
        if (ctx->cframes.lsize == 0) {
                return EINVAL;
        }
        struct ctrlframe *fr = TOP(ctx);
        if (is_else && fr->op != FRAME_OP_IF) {
                return validation_failure(ctx, "");
        }
        if (fr->op != FRAME_OP_INVOKE && fr->op != FRAME_OP_EMPTY_ELSE &&
            fr->op != FRAME_OP_LOOP && ctx->ei->jumps != NULL) {
                ctx->ei->jumps[fr->jumpslot + (is_else ? 1 : 0)].targetpc = pc;
        }
        if (pop_valtypes(fr->end_types, ctx) != 0) {
                return EINVAL;
        }
        if (ctx->valtypes.lsize != fr->height) {
                return validation_failure(ctx, "");
        }
        *out = *fr;
        ctx->cframes.lsize--;
        return 0;
}

void
ref_mark_unreachable__0(struct validation_context *ctx)
{
        struct ctrlframe *fr = TOP(ctx);
        ctx->valtypes.lsize = fr->height;
        ctx->ncells = fr->height_cell;
        fr->unreachable = true;
}

const struct resulttype *
ref_label_types__0(const struct ctrlframe *fr)
{
        return fr->op == FRAME_OP_LOOP ? fr->start_types : fr->end_types;
}

struct resulttype *
ref_returntype__0(struct validation_context *ctx)
{
        return ctx->cframes.p[0].end_types;
}

void
ref_validation_context_init__0(struct validation_context *ctx)
{
        memset(ctx, 0, sizeof(*ctx));
}

void
ref_validation_context_reuse__0(struct validation_context *ctx)
{
        struct mem_context *mctx = validation_mctx(ctx);
        struct ctrlframe *fr;
        VEC_FOREACH(fr, ctx->cframes) {
                ctrlframe_clear(mctx, fr);
        }
        ctx->cframes.lsize = 0;
        ctx->valtypes.lsize = 0;
        ctx->ncells = 0;
        ctx->locals.lsize = 0;
}

void
ref_validation_context_clear__0(struct validation_context *ctx)
{
        struct mem_context *mctx = validation_mctx(ctx);
        validation_context_reuse(ctx);
        VEC_FREE(mctx, ctx->cframes);
        VEC_FREE(mctx, ctx->valtypes);
        VEC_FREE(mctx, ctx->locals);
}

void
ref_ctrlframe_clear__0(struct mem_context *mctx, struct ctrlframe *fr)
{
        resulttype_free(mctx, fr->end_types);
        resulttype_free(mctx, fr->start_types);
}

int
ref_target_label_types__0(struct validation_context *ctx, uint32_t idx,
                          const struct resulttype **out)
{
        uint32_t n = ctx->cframes.lsize;
        if (idx >= n) {
                return EINVAL;
        }
        *out = label_types(&ctx->cframes.p[n - 1 - idx]);
        return 0;
}

/*
 * One size is kept for all; entries are added where it is another.  (Which
 * repetitions are left out makes no difference to what is looked up.)
 */
#define ANNOTATE(SAME)                                                        \
        if (TOP(v)->unreachable) {                                            \
                return 0;                                                     \
        }                                                                     \
        const uint32_t csz = CSZ(t);                                          \
        struct type_annotations *an = &v->ei->type_annotations;               \
        if (an->default_size == 0) {                                          \
                an->default_size = csz;                                       \
                return 0;                                                     \
        }                                                                     \
        const uint32_t pc = ptr2pc(v->module, p);                             \
        if (an->ntypes == 0) {                                                \
                if (an->default_size == csz) {                                \
                        return 0;                                             \
                }                                                             \
        } else if (SAME) {                                                    \
                return 0;                                                     \
        }                                                                     \
        int ret = array_extend(validation_mctx(v), (void **)&an->types,       \
                               sizeof(*an->types), an->ntypes,                \
                               an->ntypes + 1);                               \
        if (ret != 0) {                                                       \
                return ret;                                                   \
        }                                                                     \
        an->types[an->ntypes].pc = pc;                                        \
        an->types[an->ntypes].size = csz;                                     \
        an->ntypes++;                                                         \
        return 0

int
ref_record_type_annotation__0(struct validation_context *v, const uint8_t *p,
                              enum valtype t)
{
        ANNOTATE(an->types[an->ntypes - 1].size == csz);
}

int
ref_record_type_annotation__1(struct validation_context *v, const uint8_t *p,
                              enum valtype t)
{
        ANNOTATE(false);
}

/* (a size is never equal to the code of a type) */
int
ref_record_type_annotation__2(struct validation_context *v, const uint8_t *p,
                              enum valtype t)
{
        ANNOTATE(an->types[an->ntypes - 1].size == t);
}

/* -- lists of types */
int
ref_resulttype_alloc__0(struct mem_context *mctx, uint32_t n,
                        const enum valtype *types, struct resulttype **out)
{
        uint32_t i;
        if (n == 1) {
                DEFINE_TYPES(static const, types_i32, TYPE_i32);
                DEFINE_RESULTTYPE(static const, rt_i32, &types_i32, 1);
                DEFINE_TYPES(static const, types_i64, TYPE_i64);
                DEFINE_RESULTTYPE(static const, rt_i64, &types_i64, 1);
                DEFINE_TYPES(static const, types_f32, TYPE_f32);
                DEFINE_RESULTTYPE(static const, rt_f32, &types_f32, 1);
                DEFINE_TYPES(static const, types_f64, TYPE_f64);
                DEFINE_RESULTTYPE(static const, rt_f64, &types_f64, 1);
                DEFINE_TYPES(static const, types_v128, TYPE_v128);
                DEFINE_RESULTTYPE(static const, rt_v128, &types_v128, 1);
                DEFINE_TYPES(static const, types_exnref, TYPE_exnref);
                DEFINE_RESULTTYPE(static const, rt_exnref, &types_exnref, 1);
                DEFINE_TYPES(static const, types_funcref, TYPE_funcref);
                DEFINE_RESULTTYPE(static const, rt_funcref, &types_funcref, 1);
                DEFINE_TYPES(static const, types_externref, TYPE_externref);
                DEFINE_RESULTTYPE(static const, rt_externref, &types_externref,
                                  1);
                const struct resulttype *p;
                switch (types[0]) {
                case TYPE_i32:
                        p = &rt_i32;
                        break;
                case TYPE_i64:
                        p = &rt_i64;
                        break;
                case TYPE_f32:
                        p = &rt_f32;
                        break;
                case TYPE_f64:
                        p = &rt_f64;
                        break;
                case TYPE_v128:
                        p = &rt_v128;
                        break;
                case TYPE_exnref:
                        p = &rt_exnref;
                        break;
                case TYPE_funcref:
                        p = &rt_funcref;
                        break;
                case TYPE_externref:
                        p = &rt_externref;
                        break;
                case TYPE_ANYREF:
                case TYPE_UNKNOWN:
                        p = NULL;
                }
                *out = (void *)p;
                return 0;
        }
        size_t size = n * sizeof(enum valtype);
        if (size / n != sizeof(enum valtype) ||
            size + sizeof(**out) <= size) {
                return EOVERFLOW;
        }
        struct resulttype *rt = mem_alloc(mctx, sizeof(*rt) + size);
        if (rt == NULL) {
                return ENOMEM;
        }
        rt->ntypes = n;
        rt->types = (void *)(rt + 1);
        rt->is_static = false;
        rt->cellidx.cellidxes = NULL;
        for (i = 0; i < n; i++) {
                rt->types[i] = types[i];
        }
        *out = rt;
        return 0;
}

void
ref_resulttype_free__0(struct mem_context *mctx, struct resulttype *p)
{
        if (p != NULL && !p->is_static) {
                mem_free(mctx, p,
                         sizeof(*p) + p->ntypes * sizeof(enum valtype));
        }
}

uint32_t
ref_ptr2pc__0(const struct module *m, const uint8_t *p)
{
        return (uint32_t)(p - m->bin);
}

const uint8_t *
ref_pc2ptr__0(const struct module *m, uint32_t pc)
{
        return m->bin + pc;
}

/* -- loading */
void
ref_load_context_init__0(struct load_context *ctx, struct mem_context *mctx)
{
        memset(ctx, 0, sizeof(*ctx));
        ctx->mctx = mctx;
        load_options_set_defaults(&ctx->options);
}

void
ref_load_context_clear__0(struct load_context *ctx)
{
        struct mem_context *mctx = load_mctx(ctx);
        report_clear(&ctx->report);
        bitmap_free(mctx, &ctx->refs, ctx->refs_size);
        if (ctx->vctx != NULL) {
                validation_context_clear(ctx->vctx);
                mem_free(mctx, ctx->vctx, sizeof(*ctx->vctx));
        }
}

/* steps over one instruction; NULL after the last one */
void
ref_parse_expr__0(const uint8_t **pp, struct parse_expr_context *pctx)
{
        const uint8_t *p = *pp;
        uint32_t op = read_insn_nocheck(&p);
        if (op == FRAME_OP_END) {
                if (pctx->block_level == 0) {
                        *pp = NULL;
                        return;
                }
                pctx->block_level--;
        } else if (op == FRAME_OP_BLOCK || op == FRAME_OP_LOOP ||
                   op == FRAME_OP_IF || op == FRAME_OP_TRY_TABLE) {
                pctx->block_level++;
        }
        *pp = p;
}
