/* Decoding a module: the binary format of the WebAssembly specification. */
#include <errno.h>
#include <limits.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include "cell.h"
#include "context.h"
#include "decode.h"
#include "dylink_type.h"
#include "exec.h"
#include "expr.h"
#include "insn.h"
#include "leb128.h"
#include "load_context.h"
#include "mem.h"
#include "module.h"
#include "type.h"
#include "util.h"
#include "validation.h"

typedef const uint8_t **pos_t;
typedef const uint8_t *end_t;

#struct "lib/module.c" section
#struct "lib/module.c" section_type
struct element_ctx {
        struct load_context *lctx;
        struct element *elem;
};

int section_load(struct section *, pos_t, end_t);
int read_valtype(pos_t, end_t, enum valtype *);
int cellidx_alloc(struct mem_context *, uint32_t, uint16_t **);
void cellidx_free(struct mem_context *, uint32_t, uint16_t *);
int populate_resulttype_cellidx(struct mem_context *, struct resulttype *);
int populate_localtype_cellidx(struct mem_context *, struct localtype *);
int read_resulttype(pos_t, end_t, struct resulttype *,
                    const struct load_context *, bool);
int read_functype(pos_t, end_t, uint32_t, struct functype *, void *);
int read_limits(pos_t, end_t, struct limits *, uint8_t *, uint8_t *, uint8_t,
                uint64_t);
int read_memtype(pos_t, end_t, uint32_t, struct memtype *, void *);
int read_globaltype(pos_t, end_t, struct globaltype *);
int check_utf8(const uint8_t *, end_t);
int read_tabletype(pos_t, end_t, struct tabletype *);
int read_tagtype(pos_t, end_t, uint32_t, struct tagtype *, void *);
int read_importdesc(pos_t, end_t, uint32_t, struct importdesc *,
                    struct load_context *);
int read_exportdesc(pos_t, end_t, struct exportdesc *, struct load_context *);
int read_import(pos_t, end_t, uint32_t, struct import *, void *);
void clear_import(struct mem_context *, struct import *);
int read_export(pos_t, end_t, uint32_t, struct wasm_export *, void *);
void clear_export(struct mem_context *, struct wasm_export *);
void clear_expr(struct mem_context *, struct expr *);
void clear_func(struct mem_context *, struct func *);
int read_locals(pos_t, end_t, struct func *, const struct load_context *);
int read_func(pos_t, end_t, uint32_t, struct func *, void *);
int read_global(pos_t, end_t, uint32_t, struct global *, void *);
void clear_global(struct mem_context *, struct global *);
int read_element_init_expr(pos_t, end_t, uint32_t, struct expr *, void *);
int read_element(pos_t, end_t, uint32_t, struct element *, void *);
void clear_element(struct mem_context *, struct element *);
void module_funcs_clear(struct mem_context *, struct module *, uint32_t);
int read_data(pos_t, end_t, uint32_t, struct data *, void *);
void clear_data(struct mem_context *, struct data *);
void clear_tagtype(struct mem_context *, struct tagtype *);
int read_section(pos_t, end_t, const char *,
                 int (*)(pos_t, end_t, struct load_context *),
                 struct load_context *);
int read_import_info(pos_t, end_t, struct dylink_import_info *);
void clear_dylink(struct mem_context *, struct dylink *);
const struct section_type *get_section_type(uint8_t);
int module_load_into(struct module *, const uint8_t *, end_t,
                     struct load_context *);
void module_unload(struct mem_context *, struct module *);
int cmp_export(const void *, const void *);
int read_expr_common(pos_t, end_t, struct expr *, uint32_t,
                     const struct localchunk *, struct resulttype *,
                     struct resulttype *, bool, struct load_context *);
int read_dylink_mem_info(pos_t, end_t, struct load_context *);
int read_dylink_needs(pos_t, end_t, struct load_context *);
int read_dylink_import_info(pos_t, end_t, struct load_context *);
int read_dylink_0_section(pos_t, end_t, struct load_context *);
int read_name_section(pos_t, end_t, struct load_context *);
extern const struct section_type section_types[];
int read_elem_wrapper(pos_t, end_t, uint32_t, void *, void *);

#define TRY(x)                                                                \
        do {                                                                  \
                ret = (x);                                                    \
                if (ret != 0) {                                               \
                        goto fail;                                            \
                }                                                             \
        } while (0)
#define REJECT(cond, error)                                                   \
        do {                                                                  \
                if (cond) {                                                   \
                        ret = (error);                                        \
                        goto fail;                                            \
                }                                                             \
        } while (0)

/* -- bytes.  without an end nothing is checked: the bytes were checked when
 * the module was loaded. */
int
ref_read_u8__0(pos_t pp, end_t ep, uint8_t *out)
{
        if (ep != NULL && (size_t)(ep - *pp) < 1) {
                return EINVAL;
        }
        *out = **pp;
        *pp += 1;
        return 0;
}

/* (a length that is not negative) */
int
ref_read_u8__1(pos_t pp, end_t ep, uint8_t *out)
{
        if (ep != NULL && ep - *pp < 1) {
                return EINVAL;
        }
        *out = **pp;
        *pp += 1;
        return 0;
}

int
ref_read_u32__0(pos_t pp, end_t ep, uint32_t *out)
{
        if (ep != NULL && (size_t)(ep - *pp) < 4) {
                return EINVAL;
        }
        uint32_t v;
        memcpy(&v, *pp, 4);
        *pp += 4;
        *out = v;
        return 0;
}

int
ref_read_u64__0(pos_t pp, end_t ep, uint64_t *out)
{
        if (ep != NULL && (size_t)(ep - *pp) < 8) {
                return EINVAL;
        }
        uint64_t v;
        memcpy(&v, *pp, 8);
        *pp += 8;
        *out = v;
        return 0;
}

int
ref_read_vec_count__0(pos_t pp, end_t ep, uint32_t *out)
{
        const uint8_t *p = *pp;
        uint32_t n;
        int ret = read_leb_u32(&p, ep, &n);
        if (ret != 0) {
                return ret;
        }
        *pp = p;
        *out = n;
        return 0;
}

int
ref_read_vec_u32__0(struct mem_context *mctx, pos_t pp, end_t ep,
                    uint32_t *countp, uint32_t **out)
{
        return read_vec(mctx, pp, ep, 4, (read_elem_func_t)read_leb_u32,
                        countp, (void **)out);
}

/* new elements are appended; none of them stays if one is bad */
int
ref__read_vec_with_ctx_impl__0(struct mem_context *mctx, pos_t pp, end_t ep,
                               size_t size,
                               read_elem_with_ctx_func_t read_elem,
                               clear_elem_with_ctx_func_t clear_elem,
                               void *ctx, uint32_t *countp, void **resultp)
{
        const uint8_t *p = *pp;
        uint32_t old = *countp;
        uint32_t n;
        int ret = read_vec_count(&p, ep, &n);
        if (ret != 0) {
                return ret;
        }
        if (n == 0) {
                *pp = p;
                return 0;
        }
        uint32_t total;
        if (__builtin_add_overflow(old, n, &total)) {
                return EOVERFLOW;
        }
        ret = array_extend(mctx, resultp, size, old, total);
        if (ret != 0) {
                return ret;
        }
        uint8_t *a = (uint8_t *)*resultp + old * size;
        uint32_t i;
        for (i = 0; i < n; i++) {
                ret = read_elem(&p, ep, i, a + i * size, ctx);
                if (ret != 0) {
                        if (clear_elem != NULL) {
                                uint32_t j;
                                for (j = 0; j < i; j++) {
                                        clear_elem(mctx, a + j * size);
                                }
                        }
                        array_shrink(mctx, resultp, size, total, old);
                        return ret;
                }
        }
        *pp = p;
        *countp = total;
        return 0;
}

/* -- sections */
int
ref_section_load__0(struct section *s, pos_t pp, end_t ep)
{
        const uint8_t *p = *pp;
        uint8_t id;
        uint32_t size;
        int ret;
        TRY(read_u8(&p, ep, &id));
        s->id = id;
        TRY(read_leb_u32(&p, ep, &size));
        s->size = size;
        REJECT(p + size > ep, EINVAL);
        s->data = p;
        *pp = p + size;
        return 0;
fail:
        return ret;
}

/* consumed exactly */
int
ref_read_section__0(pos_t pp, end_t ep, const char *name,
                    int (*read_fn)(pos_t, end_t, struct load_context *),
                    struct load_context *ctx)
{
        const uint8_t *p = *pp;
        int ret;
        TRY(read_fn(&p, ep, ctx));
        REJECT(p != ep, EINVAL);
        *pp = p;
        return 0;
fail:
        return ret;
}

/* -- types */
int
ref_read_valtype__0(pos_t pp, end_t ep, enum valtype *vt)
{
        const uint8_t *p = *pp;
        uint8_t b;
        int ret;
        TRY(read_u8(&p, ep, &b));
        switch (b) {
        case 0x7f:
        case 0x7e:
        case 0x7d:
        case 0x7c:
        case 0x7b:
        case 0x70:
        case 0x6f:
        case 0x69:
                break;
        default:
                return EINVAL;
        }
        *vt = b;
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_cellidx_alloc__0(struct mem_context *mctx, uint32_t n, uint16_t **out)
{
        if (n == UINT32_MAX) {
                return EOVERFLOW;
        }
        uint16_t *p = mem_zalloc(mctx, (size_t)(n + 1) * 2);
        if (p == NULL) {
                return ENOMEM;
        }
        *out = p;
        return 0;
}

void
ref_cellidx_free__0(struct mem_context *mctx, uint32_t n, uint16_t *p)
{
        if (p != NULL) {
                mem_free(mctx, p, (size_t)(n + 1) * 2);
        }
}

/* entry i is where value i starts; the last one is the total */
int
ref_populate_resulttype_cellidx__0(struct mem_context *mctx,
                                   struct resulttype *rt)
{
        uint16_t *idx;
        int ret = cellidx_alloc(mctx, rt->ntypes, &idx);
        if (ret != 0) {
                return ret;
        }
        uint32_t at = 0;
        uint32_t i;
        for (i = 0; i < rt->ntypes; i++) {
                uint32_t n = valtype_cellsize(rt->types[i]);
                if (n > UINT16_MAX - at) {
                        cellidx_free(mctx, rt->ntypes, idx);
                        return EOVERFLOW;
                }
                at += n;
                idx[i + 1] = at;
        }
        rt->cellidx.cellidxes = idx;
        return 0;
}

int
ref_populate_resulttype_cellidx__1(struct mem_context *mctx,
                                   struct resulttype *rt)
{
        uint16_t *idx;
        int ret = cellidx_alloc(mctx, rt->ntypes, &idx);
        if (ret != 0) {
                return ret;
        }
        uint32_t at = 0;
        uint32_t i;
        for (i = 0; i < rt->ntypes; i++) {
                at += valtype_cellsize(rt->types[i]);
                if (at > UINT16_MAX) {
                        cellidx_free(mctx, rt->ntypes, idx);
                        return EOVERFLOW;
                }
                idx[i + 1] = at;
        }
        rt->cellidx.cellidxes = idx;
        return 0;
}

int
ref_populate_localtype_cellidx__0(struct mem_context *mctx,
                                  struct localtype *lt)
{
        uint16_t *idx;
        int ret = cellidx_alloc(mctx, lt->nlocals, &idx);
        if (ret != 0) {
                return ret;
        }
        const struct localchunk *chunk = lt->localchunks - 1;
        uint32_t left = 0;
        uint32_t size;
        uint32_t at = 0;
        uint32_t i;
        for (i = 0; i < lt->nlocals; i++) {
                if (left == 0) {
                        chunk++;
                        size = valtype_cellsize(chunk->type);
                        left = chunk->n;
                }
                if (size > UINT16_MAX - at) {
                        cellidx_free(mctx, lt->nlocals, idx);
                        return EOVERFLOW;
                }
                at += size;
                idx[i + 1] = at;
                left--;
        }
        lt->cellidx.cellidxes = idx;
        return 0;
}

/* the index is only an aid: doing without it is no failure */
int
ref_read_resulttype__0(pos_t pp, end_t ep, struct resulttype *rt,
                       const struct load_context *ctx, bool populate)
{
        const uint8_t *p = *pp;
        int ret;
        rt->ntypes = 0;
        rt->types = NULL;
        rt->cellidx.cellidxes = NULL;
        TRY(read_vec(ctx->mctx, &p, ep, sizeof(*rt->types),
                     (read_elem_func_t)read_valtype, &rt->ntypes,
                     (void *)&rt->types));
        rt->is_static = true;
        if (populate && rt->ntypes > 0 &&
            ctx->options.generate_resulttype_cellidx) {
                populate_resulttype_cellidx(ctx->mctx, rt);
        }
        *pp = p;
        return 0;
fail:
        return ret;
}

void
ref_clear_resulttype__0(struct mem_context *mctx, struct resulttype *rt)
{
        if (rt->types != NULL) {
                mem_free(mctx, rt->types, rt->ntypes * sizeof(*rt->types));
        }
        cellidx_free(mctx, rt->ntypes, rt->cellidx.cellidxes);
}

int
ref_read_functype__0(pos_t pp, end_t ep, uint32_t idx, struct functype *ft,
                     void *vp)
{
        struct load_context *ctx = vp;
        const uint8_t *p = *pp;
        uint8_t b;
        int ret;
        TRY(read_u8(&p, ep, &b));
        REJECT(b != 0x60, EINVAL);
        TRY(read_resulttype(&p, ep, &ft->parameter, ctx, true));
        ret = read_resulttype(&p, ep, &ft->result, ctx, false);
        if (ret != 0) {
                clear_resulttype(ctx->mctx, &ft->parameter);
                goto fail;
        }
        *pp = p;
fail:
        return ret;
}

void
ref_clear_functype__0(struct mem_context *mctx, struct functype *ft)
{
        clear_resulttype(mctx, &ft->parameter);
        clear_resulttype(mctx, &ft->result);
}

/*
 * flags: 1 has a maximum, 2 shared (memories), 8 has a page size (memories).
 * shared needs a maximum.  min <= max <= what the type can address.
 */
int
ref_read_limits__0(pos_t pp, end_t ep, struct limits *lim, uint8_t *flagsp,
                   uint8_t *shiftp, uint8_t default_shift, uint64_t typemax)
{
        const uint8_t *p = *pp;
        uint8_t flags;
        int ret;
        TRY(read_u8(&p, ep, &flags));
        bool has_max = flags & 1;
        REJECT(!has_max && (flags & 2) != 0, EINVAL);
        uint8_t allowed = 1;
        if (flagsp != NULL) {
                *flagsp = flags & 2;
                allowed |= 2;
        }
        bool has_shift = false;
        if (shiftp != NULL) {
                has_shift = (flags & 8) != 0;
                allowed |= 8;
        }
        REJECT((flags & ~allowed) != 0, EINVAL);
        TRY(read_leb_u32(&p, ep, &lim->min));
        if (has_max) {
                TRY(read_leb_u32(&p, ep, &lim->max));
        }
        uint8_t shift = default_shift;
        if (has_shift) {
                uint32_t v;
                TRY(read_leb_u32(&p, ep, &v));
                REJECT(v != 0 && v != 16, EINVAL);
                shift = v;
        }
        if (shiftp != NULL) {
                *shiftp = shift;
        }
        uint64_t most = typemax >> shift;
        if (has_max) {
                REJECT(most < lim->max, EOVERFLOW);
        } else {
                lim->max = most < UINT32_MAX ? (uint32_t)most : UINT32_MAX;
        }
        REJECT(most < lim->min, EOVERFLOW);
        REJECT(lim->min > lim->max, EINVAL);
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_memtype__0(pos_t pp, end_t ep, uint32_t idx, struct memtype *mt,
                    void *vctx)
{
        return read_limits(pp, ep, &mt->lim, &mt->flags, &mt->page_shift, 16,
                           (uint64_t)1 << 32);
}

int
ref_read_globaltype__0(pos_t pp, end_t ep, struct globaltype *g)
{
        const uint8_t *p = *pp;
        uint8_t b;
        int ret;
        TRY(read_valtype(&p, ep, &g->t));
        TRY(read_u8(&p, ep, &b));
        REJECT(b != 0 && b != 1, EINVAL);
        g->mut = b == 1 ? GLOBAL_VAR : GLOBAL_CONST;
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_tabletype__0(pos_t pp, end_t ep, struct tabletype *tt)
{
        const uint8_t *p = *pp;
        int ret;
        TRY(read_valtype(&p, ep, &tt->et));
        REJECT(tt->et != TYPE_funcref && tt->et != TYPE_externref &&
                       tt->et != TYPE_exnref,
               EINVAL);
        TRY(read_limits(&p, ep, &tt->lim, NULL, NULL, 0, UINT32_MAX));
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_tagtype__0(pos_t pp, end_t ep, uint32_t idx, struct tagtype *tag,
                    void *vctx)
{
        struct load_context *ctx = vctx;
        const struct module *m = ctx->module;
        const uint8_t *p = *pp;
        uint32_t attr;
        uint32_t typeidx;
        int ret;
        TRY(read_leb_u32(&p, ep, &attr));
        REJECT(attr != 0, EINVAL);
        TRY(read_leb_u32(&p, ep, &typeidx));
        REJECT(typeidx >= m->ntypes, EINVAL);
        const struct functype *ft = &m->types[typeidx];
        REJECT(ft->result.ntypes > 0, EINVAL);
        REJECT(resulttype_cellsize(&ft->parameter) >
                       TOYWASM_EXCEPTION_MAX_CELLS,
               ENOTSUP);
        tag->typeidx = typeidx;
        *pp = p;
        return 0;
fail:
        return ret;
}

/* -- names are well-formed UTF-8 */
int
ref_check_utf8__0(const uint8_t *p, end_t ep)
{
        int ret;
        while (p < ep) {
                uint8_t b;
                TRY(read_u8(&p, ep, &b));
                unsigned int n;
                uint32_t c, min, max;
                if (b < 0x80) {
                        n = 1;
                        c = b;
                        min = 0;
                        max = 0x7f;
                } else if (b < 0xc0) {
                        return EINVAL;
                } else if (b < 0xe0) {
                        n = 2;
                        c = b - 0xc0;
                        min = 0x80;
                        max = 0x7ff;
                } else if (b < 0xf0) {
                        n = 3;
                        c = b - 0xe0;
                        min = 0x800;
                        max = 0xffff;
                } else if (b < 0xf8) {
                        n = 4;
                        c = b - 0xf0;
                        min = 0x10000;
                        max = 0x10ffff;
                } else {
                        return EINVAL;
                }
                unsigned int i;
                for (i = 1; i < n; i++) {
                        TRY(read_u8(&p, ep, &b));
                        REJECT(b < 0x80 || b >= 0xc0, EINVAL);
                        c = (c << 6) + (b - 0x80);
                }
                REJECT(c < min || c > max, EINVAL);
                REJECT(c >= 0xd800 && c < 0xe000, EINVAL);
        }
        return 0;
fail:
        return ret;
}

int
ref_read_name__0(pos_t pp, end_t ep, struct name *name)
{
        const uint8_t *p = *pp;
        uint32_t n;
        int ret;
        TRY(read_vec_count(&p, ep, &n));
        REJECT(ep - p < n, E2BIG);
        TRY(check_utf8(p, p + n));
        name->nbytes = n;
        name->data = (const char *)p;
        *pp = p + n;
        return 0;
fail:
        return ret;
}

/* -- imports and exports */
int
ref_read_importdesc__0(pos_t pp, end_t ep, uint32_t idx,
                       struct importdesc *desc, struct load_context *ctx)
{
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        uint8_t kind;
        int ret;
        TRY(read_u8(&p, ep, &kind));
        switch (kind) {
        case 0:
                TRY(read_leb_u32(&p, ep, &desc->u.typeidx));
                REJECT(desc->u.typeidx >= m->ntypes, EINVAL);
                m->nimportedfuncs++;
                break;
        case 1:
                TRY(read_tabletype(&p, ep, &desc->u.tabletype));
                m->nimportedtables++;
                break;
        case 2:
                TRY(read_memtype(&p, ep, 0, &desc->u.memtype, ctx));
                m->nimportedmems++;
                break;
        case 3:
                TRY(read_globaltype(&p, ep, &desc->u.globaltype));
                m->nimportedglobals++;
                break;
        case 4:
                TRY(read_tagtype(&p, ep, 0, &desc->u.tagtype, ctx));
                m->nimportedtags++;
                break;
        default:
                return EINVAL;
        }
        desc->type = kind;
        *pp = p;
        return 0;
fail:
        return ret;
}

/* an exported function may be referred to by ref.func */
int
ref_read_exportdesc__0(pos_t pp, end_t ep, struct exportdesc *desc,
                       struct load_context *ctx)
{
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        uint8_t kind;
        int ret;
        TRY(read_u8(&p, ep, &kind));
        REJECT(kind > 4, EINVAL);
        desc->type = kind;
        TRY(read_leb_u32(&p, ep, &desc->idx));
        uint32_t n;
        switch (kind) {
        case 0:
                n = m->nimportedfuncs + m->nfuncs;
                break;
        case 1:
                n = m->nimportedtables + m->ntables;
                break;
        case 2:
                n = m->nimportedmems + m->nmems;
                break;
        case 3:
                n = m->nimportedglobals + m->nglobals;
                break;
        default:
                n = m->nimportedtags + m->ntags;
                break;
        }
        REJECT(desc->idx >= n, EINVAL);
        if (kind == 0) {
                bitmap_set(&ctx->refs, desc->idx);
        }
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_import__0(pos_t pp, end_t ep, uint32_t idx, struct import *im,
                   void *ctx)
{
        const uint8_t *p = *pp;
        int ret;
        memset(im, 0, sizeof(*im));
        TRY(read_name(&p, ep, &im->module_name));
        TRY(read_name(&p, ep, &im->name));
        TRY(read_importdesc(&p, ep, idx, &im->desc, ctx));
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_export__0(pos_t pp, end_t ep, uint32_t idx, struct wasm_export *ex,
                   void *ctx)
{
        const uint8_t *p = *pp;
        int ret;
        memset(ex, 0, sizeof(*ex));
        TRY(read_name(&p, ep, &ex->name));
        TRY(read_exportdesc(&p, ep, &ex->desc, ctx));
        *pp = p;
        return 0;
fail:
        return ret;
}

/* -- function bodies and expressions */
void
ref_clear_expr__0(struct mem_context *mctx, struct expr *e)
{
        struct expr_exec_info *ei = &e->ei;
        mem_free(mctx, ei->jumps, ei->njumps * sizeof(*ei->jumps));
        mem_free(mctx, ei->type_annotations.types,
                 ei->type_annotations.ntypes *
                         sizeof(*ei->type_annotations.types));
}

void
ref_clear_func__0(struct mem_context *mctx, struct func *func)
{
        struct localtype *lt = &func->localtype;
        mem_free(mctx, lt->localchunks,
                 lt->nlocalchunks * sizeof(*lt->localchunks));
        cellidx_free(mctx, lt->nlocals, lt->cellidx.cellidxes);
        clear_expr(mctx, &func->e);
}

/* fewer than 2^32 locals in all; empty groups leave nothing behind */
int
ref_read_locals__0(pos_t pp, end_t ep, struct func *func,
                   const struct load_context *ctx)
{
        struct localtype *lt = &func->localtype;
        const uint8_t *p = *pp;
        struct localchunk *chunks = NULL;
        uint32_t total = 0;
        uint32_t n;
        int ret = read_vec_count(&p, ep, &n);
        if (ret != 0) {
                return ret;
        }
        lt->nlocalchunks = n;
        if (n > 0) {
                chunks = mem_calloc(ctx->mctx, n, sizeof(*chunks));
                if (chunks == NULL) {
                        return ENOMEM;
                }
        }
        struct localchunk *chunk = chunks;
        uint32_t i;
        for (i = 0; i < n; i++) {
                uint32_t count;
                uint8_t type;
                TRY(read_leb_u32(&p, ep, &count));
                REJECT(count > UINT32_MAX - total, E2BIG);
                total += count;
                TRY(read_u8(&p, ep, &type));
                REJECT(!is_valtype(type), EINVAL);
                if (count > 0) {
                        chunk->n = count;
                        chunk->type = type;
                        chunk++;
                }
        }
        lt->localchunks = chunks;
        lt->nlocals = total;
        if (total > 0 && ctx->options.generate_localtype_cellidx) {
                populate_localtype_cellidx(ctx->mctx, lt);
        }
        *pp = p;
        return 0;
fail:
        mem_free(ctx->mctx, chunks, lt->nlocalchunks * sizeof(*chunks));
        return ret;
}

int
ref_read_func__0(pos_t pp, end_t ep, uint32_t idx, struct func *func,
                 void *vp)
{
        struct load_context *ctx = vp;
        struct module *m = ctx->module;
        struct localtype *lt = &func->localtype;
        const uint8_t *p = *pp;
        uint32_t size;
        int ret;
        func->e.ei.jumps = NULL;
        func->e.ei.type_annotations.types = NULL;
        lt->localchunks = NULL;
        lt->nlocals = 0;
        lt->cellidx.cellidxes = NULL;
        REJECT(m->nimportedfuncs + idx >= m->nimportedfuncs + m->nfuncs,
               EINVAL);
        struct functype *ft = &m->types[m->functypeidxes[idx]];
        TRY(read_leb_u32(&p, ep, &size));
        const uint8_t *end = p + size;
        REJECT(end > ep, EINVAL);
        TRY(read_locals(&p, end, func, ctx));
        TRY(read_expr(&p, end, &func->e, lt->nlocals, lt->localchunks,
                      &ft->parameter, &ft->result, ctx));
        REJECT(p != end, EINVAL);
        *pp = p;
        return 0;
fail:
        clear_func(ctx->mctx, func);
        return ret;
}

/* parameters, then locals; one frame that yields the results */
int
ref_read_expr_common__0(pos_t pp, end_t ep, struct expr *expr,
                        uint32_t nlocals, const struct localchunk *locals,
                        struct resulttype *params, struct resulttype *results,
                        bool const_expr, struct load_context *lctx)
{
        const uint8_t *p = *pp;
        int ret;
        struct mem_context *mctx = lctx->mctx;
        struct validation_context *vctx = lctx->vctx;
        if (vctx == NULL) {
                vctx = mem_alloc(mctx, sizeof(*vctx));
                if (vctx == NULL) {
                        return ENOMEM;
                }
                validation_context_init(vctx);
                lctx->vctx = vctx;
                vctx->mctx = mctx;
                vctx->module = lctx->module;
                vctx->report = &lctx->report;
                vctx->refs = &lctx->refs;
                vctx->options = &lctx->options;
        }
        vctx->has_datacount = lctx->has_datacount;
        vctx->ndatas_in_datacount = lctx->ndatas_in_datacount;
        vctx->const_expr = const_expr;
        vctx->ei = &expr->ei;
        memset(&expr->ei, 0, sizeof(expr->ei));
        uint32_t n;
        REJECT(__builtin_add_overflow(params->ntypes, nlocals, &n),
               EOVERFLOW);
        ret = VEC_PREALLOC(vctx->mctx, vctx->locals, n);
        if (ret != 0) {
                goto fail;
        }
        uint32_t i;
        for (i = 0; i < params->ntypes; i++) {
                VEC_ELEM(vctx->locals, i) = params->types[i];
        }
        const struct localchunk *ch = locals;
        for (i = 0; i < nlocals; i += ch->n, ch++) {
                uint32_t j;
                for (j = 0; j < ch->n; j++) {
                        VEC_ELEM(vctx->locals, params->ntypes + i + j) =
                                ch->type;
                }
        }
        vctx->locals.lsize = n;
        expr->start = p;
        TRY(push_ctrlframe(0, FRAME_OP_INVOKE, 0, NULL, results, vctx));
        struct context ctx;
        ctx.validation = vctx;
        ctx.exec = NULL;
        do {
#if defined(TOYWASM_USE_SEPARATE_VALIDATE)
                TRY(fetch_validate_next_insn(p, ep, vctx));
                p = vctx->p;
#else
                TRY(fetch_process_next_insn(&p, ep, &ctx));
#endif
        } while (vctx->cframes.lsize != 0);
        *pp = p;
#if defined(TOYWASM_MAINTAIN_EXPR_END)
        expr->end = p;
#endif
        validation_context_reuse(vctx);
        return 0;
fail:
        validation_context_reuse(vctx);
        return ret;
}

int
ref_read_expr__0(pos_t pp, end_t ep, struct expr *expr, uint32_t nlocals,
                 const struct localchunk *chunks, struct resulttype *params,
                 struct resulttype *results, struct load_context *lctx)
{
        return read_expr_common(pp, ep, expr, nlocals, chunks, params,
                                results, false, lctx);
}

int
ref_read_const_expr__0(pos_t pp, end_t ep, struct expr *expr,
                       enum valtype type, struct load_context *lctx)
{
        DEFINE_RESULTTYPE(, rt, &type, 1);
        return read_expr_common(pp, ep, expr, 0, NULL, empty_rt, &rt, true,
                                lctx);
}

int
ref_read_global__0(pos_t pp, end_t ep, uint32_t idx, struct global *g,
                   void *vctx)
{
        const uint8_t *p = *pp;
        int ret;
        g->init.ei.jumps = NULL;
        g->init.ei.type_annotations.types = NULL;
        TRY(read_globaltype(&p, ep, &g->type));
        TRY(read_const_expr(&p, ep, &g->init, g->type.t, vctx));
        *pp = p;
        return 0;
fail:
        return ret;
}

void
ref_clear_global__0(struct mem_context *mctx, struct global *g)
{
        clear_expr(mctx, &g->init);
}

/* -- element segments */
int
ref_read_element_init_expr__0(pos_t pp, end_t ep, uint32_t idx,
                              struct expr *e, void *vctx)
{
        struct element_ctx *ctx = vctx;
        return read_const_expr(pp, ep, e, ctx->elem->type, ctx->lctx);
}

void
ref_clear_element__0(struct mem_context *mctx, struct element *elem)
{
        if (elem->init_exprs != NULL) {
                uint32_t i;
                for (i = 0; i < elem->init_size; i++) {
                        clear_expr(mctx, &elem->init_exprs[i]);
                }
                mem_free(mctx, elem->init_exprs,
                         elem->init_size * sizeof(*elem->init_exprs));
        } else {
                mem_free(mctx, elem->funcs,
                         elem->init_size * sizeof(*elem->funcs));
        }
        clear_expr(mctx, &elem->offset);
}

/*
 * bit 0: passive or declarative; bit 1: has a table index, or declarative;
 * bit 2: expressions.  the element type is stated unless bits 0 and 1 are 0.
 */
int
ref_read_element__0(pos_t pp, end_t ep, uint32_t idx, struct element *elem,
                    void *vctx)
{
        struct load_context *ctx = vctx;
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        struct element_ctx ectx = {
                .lctx = ctx,
                .elem = elem,
        };
        uint32_t flags;
        uint8_t b;
        int ret;
        memset(elem, 0, sizeof(*elem));
        TRY(read_leb_u32(&p, ep, &flags));
        REJECT(flags > 7, EINVAL);
        switch (flags) {
        case 2:
        case 6: {
                uint32_t t;
                TRY(read_leb_u32(&p, ep, &t));
                elem->table = t;
                break;
        }
        default:
                elem->table = 0;
                break;
        }
        switch (flags) {
        case 0:
        case 2:
        case 4:
        case 6:
                elem->mode = ELEM_MODE_ACTIVE;
                TRY(read_const_expr(&p, ep, &elem->offset, TYPE_i32, ctx));
                break;
        case 1:
        case 5:
                elem->mode = ELEM_MODE_PASSIVE;
                break;
        default:
                elem->mode = ELEM_MODE_DECLARATIVE;
                break;
        }
        switch (flags) {
        case 1:
        case 2:
        case 3:
                TRY(read_u8(&p, ep, &b));
                REJECT(b != 0, EINVAL);
                elem->type = TYPE_funcref;
                break;
        case 5:
        case 6:
        case 7:
                TRY(read_u8(&p, ep, &b));
                REJECT(!is_reftype(b), EINVAL);
                elem->type = b;
                break;
        default:
                elem->type = TYPE_funcref;
                break;
        }
        if (flags < 4) {
                TRY(read_vec_u32(ctx->mctx, &p, ep, &elem->init_size,
                                 &elem->funcs));
                uint32_t i;
                for (i = 0; i < elem->init_size; i++) {
                        REJECT(elem->funcs[i] >=
                                       m->nimportedfuncs + m->nfuncs,
                               EINVAL);
                        bitmap_set(&ctx->refs, elem->funcs[i]);
                }
        } else {
                TRY(_read_vec_with_ctx_impl(
                        ctx->mctx, &p, ep, sizeof(*elem->init_exprs),
                        (read_elem_with_ctx_func_t)read_element_init_expr,
                        (clear_elem_with_ctx_func_t)clear_expr, &ectx,
                        &elem->init_size, (void **)&elem->init_exprs));
        }
        if (elem->mode == ELEM_MODE_ACTIVE) {
                REJECT(elem->table >= m->nimportedtables + m->ntables,
                       EINVAL);
                REJECT(module_tabletype(m, elem->table)->et != elem->type,
                       EINVAL);
        }
        *pp = p;
        return 0;
fail:
        clear_element(ctx->mctx, elem);
        return ret;
}

/* -- data segments */
int
ref_read_data__0(pos_t pp, end_t ep, uint32_t idx, struct data *data,
                 void *vctx)
{
        struct load_context *ctx = vctx;
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        uint32_t flags;
        int ret;
        memset(data, 0, sizeof(*data));
        TRY(read_leb_u32(&p, ep, &flags));
        REJECT(flags > 2, EINVAL);
        data->memory = 0;
        if (flags == 2) {
                TRY(read_leb_u32(&p, ep, &data->memory));
        }
        if (flags == 1) {
                data->mode = DATA_MODE_PASSIVE;
        } else {
                data->mode = DATA_MODE_ACTIVE;
                REJECT(data->memory >= m->nimportedmems + m->nmems, EINVAL);
                TRY(read_const_expr(&p, ep, &data->offset, TYPE_i32, ctx));
        }
        uint32_t n;
        TRY(read_vec_count(&p, ep, &n));
        REJECT(ep - p < n, E2BIG);
        data->init_size = n;
        data->init = p;
        *pp = p + n;
        return 0;
fail:
        return ret;
}

void
ref_clear_data__0(struct mem_context *mctx, struct data *data)
{
        clear_expr(mctx, &data->offset);
}

/* -- sections */
#define VECTOR(member, count, reader, clearer)                                \
        {                                                                     \
                struct module *m = ctx->module;                               \
                const uint8_t *p = *pp;                                       \
                int ret = _read_vec_with_ctx_impl(                            \
                        ctx->mctx, &p, ep, sizeof(*m->member),                \
                        (read_elem_with_ctx_func_t)reader,                    \
                        (clear_elem_with_ctx_func_t)clearer, ctx, &m->count,  \
                        (void **)&m->member);                                 \
                if (ret == 0) {                                               \
                        *pp = p;                                              \
                }                                                             \
                return ret;                                                   \
        }

int
ref_read_type_section__0(pos_t pp, end_t ep, struct load_context *ctx)
VECTOR(types, ntypes, read_functype, clear_functype)

int
ref_read_memory_section__0(pos_t pp, end_t ep, struct load_context *ctx)
VECTOR(mems, nmems, read_memtype, NULL)

int
ref_read_global_section__0(pos_t pp, end_t ep, struct load_context *ctx)
VECTOR(globals, nglobals, read_global, clear_global)

int
ref_read_export_section__0(pos_t pp, end_t ep, struct load_context *ctx)
VECTOR(exports, nexports, read_export, clear_export)

int
ref_read_element_section__0(pos_t pp, end_t ep, struct load_context *ctx)
VECTOR(elems, nelems, read_element, clear_element)

int
ref_read_data_section__0(pos_t pp, end_t ep, struct load_context *ctx)
VECTOR(datas, ndatas, read_data, clear_data)

int
ref_read_tag_section__0(pos_t pp, end_t ep, struct load_context *ctx)
VECTOR(tags, ntags, read_tagtype, clear_tagtype)


/* a bit for each function that exists */
int
ref_read_import_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        int ret;
        struct mem_context *mctx = ctx->mctx;
        TRY(_read_vec_with_ctx_impl(mctx, &p, ep, sizeof(struct import),
                                    (read_elem_with_ctx_func_t)read_import,
                                    (clear_elem_with_ctx_func_t)clear_import,
                                    ctx, &m->nimports, (void **)&m->imports));
        if (m->nimportedfuncs > 0) {
                ctx->refs_size = m->nimportedfuncs;
                TRY(bitmap_alloc(mctx, &ctx->refs, ctx->refs_size));
        }
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_function_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        struct module *m = ctx->module;
        struct mem_context *mctx = ctx->mctx;
        const uint8_t *p = *pp;
        int ret;
        TRY(read_vec_u32(mctx, &p, ep, &m->nfuncs, &m->functypeidxes));
        uint32_t i;
        for (i = 0; i < m->nfuncs; i++) {
                REJECT(m->functypeidxes[i] >= m->ntypes, EINVAL);
        }
        if (m->nfuncs > 0) {
                if (ctx->refs_size > 0) {
                        bitmap_free(mctx, &ctx->refs, ctx->refs_size);
                }
                ctx->refs_size = m->nimportedfuncs + m->nfuncs;
                TRY(bitmap_alloc(mctx, &ctx->refs, ctx->refs_size));
        }
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_table_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        int ret;
        TRY(read_vec(ctx->mctx, &p, ep, sizeof(*m->tables),
                     (read_elem_func_t)read_tabletype, &m->ntables,
                     (void *)&m->tables));
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_start_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        int ret;
        TRY(read_leb_u32(&p, ep, &m->start));
        m->has_start = true;
        REJECT(m->start >= m->nimportedfuncs + m->nfuncs, EINVAL);
        const struct functype *ft = module_functype(m, m->start);
        REJECT(ft->parameter.ntypes > 0 || ft->result.ntypes > 0, EINVAL);
        *pp = p;
        return 0;
fail:
        return ret;
}

/* as many bodies as declared functions, or nothing is kept */
int
ref_read_code_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        struct module *m = ctx->module;
        const uint8_t *p = *pp;
        uint32_t n = 0;
        int ret;
        TRY(_read_vec_with_ctx_impl(ctx->mctx, &p, ep, sizeof(*m->funcs),
                                    (read_elem_with_ctx_func_t)read_func,
                                    (clear_elem_with_ctx_func_t)clear_func,
                                    ctx, &n, (void **)&m->funcs));
        REJECT(n != m->nfuncs, EINVAL);
        *pp = p;
        return 0;
fail:
        module_funcs_clear(ctx->mctx, m, n);
        return ret;
}

void
ref_module_funcs_clear__0(struct mem_context *mctx, struct module *m,
                          uint32_t n)
{
        if (m->funcs == NULL) {
                return;
        }
        uint32_t i;
        for (i = 0; i < n; i++) {
                clear_func(mctx, &m->funcs[i]);
        }
        mem_free(mctx, m->funcs, n * sizeof(*m->funcs));
        m->funcs = NULL;
}

int
ref_read_datacount_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        const uint8_t *p = *pp;
        uint32_t n;
        int ret;
        TRY(read_leb_u32(&p, ep, &n));
        ctx->has_datacount = true;
        ctx->ndatas_in_datacount = n;
        *pp = p;
        return 0;
fail:
        return ret;
}

/* kept for later */
int
ref_read_name_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        ctx->module->name_section_start = *pp;
        ctx->module->name_section_end = ep;
        *pp = ep;
        return 0;
}

/* -- dynamic linking information */
int
ref_read_dylink_mem_info__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        struct dylink_mem_info *i = &ctx->module->dylink->mem_info;
        const uint8_t *p = *pp;
        int ret;
        TRY(read_leb_u32(&p, ep, &i->memorysize));
        TRY(read_leb_u32(&p, ep, &i->memoryalignment));
        TRY(read_leb_u32(&p, ep, &i->tablesize));
        TRY(read_leb_u32(&p, ep, &i->tablealignment));
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_dylink_needs__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        const uint8_t *p = *pp;
        struct dylink_needs *needs = &ctx->module->dylink->needs;
        int ret;
        needs->count = 0;
        needs->names = NULL;
        TRY(read_vec(ctx->mctx, &p, ep, sizeof(*needs->names),
                     (read_elem_func_t)read_name, &needs->count,
                     (void *)&needs->names));
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_import_info__0(pos_t pp, end_t ep, struct dylink_import_info *ii)
{
        const uint8_t *p = *pp;
        int ret;
        TRY(read_name(&p, ep, &ii->module_name));
        TRY(read_name(&p, ep, &ii->name));
        TRY(read_leb_i32(&p, ep, &ii->flags));
        *pp = p;
        return 0;
fail:
        return ret;
}

int
ref_read_dylink_import_info__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        const uint8_t *p = *pp;
        struct dylink *dy = ctx->module->dylink;
        int ret;
        TRY(read_vec(ctx->mctx, &p, ep, sizeof(*dy->import_info),
                     (read_elem_func_t)read_import_info, &dy->nimport_info,
                     (void *)&dy->import_info));
        *pp = p;
        return 0;
fail:
        return ret;
}

void
ref_clear_dylink__0(struct mem_context *mctx, struct dylink *dy)
{
        if (dy->needs.names != NULL) {
                mem_free(mctx, dy->needs.names,
                         dy->needs.count * sizeof(*dy->needs.names));
        }
        mem_free(mctx, dy->import_info,
                 dy->nimport_info * sizeof(*dy->import_info));
}

/*
 * dylink.0 at most once; each of its subsections at most once and consumed
 * exactly; subsections of other types are skipped.
 */
int
ref_read_dylink_0_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        const uint8_t *p = *pp;
        struct module *m = ctx->module;
        uint32_t seen = 0;
        int ret;
        REJECT(m->dylink != NULL, EINVAL);
        m->dylink = mem_zalloc(ctx->mctx, sizeof(*m->dylink));
        REJECT(m->dylink == NULL, ENOMEM);
        do {
                uint8_t type;
                uint32_t len;
                TRY(read_u8(&p, ep, &type));
                TRY(read_leb_u32(&p, ep, &len));
                REJECT(ep - p < len, E2BIG);
                end_t sep = p + len;
                int (*fn)(pos_t, end_t, struct load_context *);
                switch (type) {
                case 1:
                        fn = read_dylink_mem_info;
                        break;
                case 2:
                        fn = read_dylink_needs;
                        break;
                case 4:
                        fn = read_dylink_import_info;
                        break;
                default:
                        fn = NULL;
                        break;
                }
                if (fn == NULL) {
                        p = sep;
                        continue;
                }
                REJECT((seen & (1U << type)) != 0, EINVAL);
                seen |= 1U << type;
                TRY(read_section(&p, sep, "", fn, ctx));
        } while (p < ep);
        *pp = p;
        return 0;
fail:
        if (m->dylink != NULL) {
                clear_dylink(ctx->mctx, m->dylink);
                mem_free(ctx->mctx, m->dylink, sizeof(*m->dylink));
                m->dylink = NULL;
        }
        return ret;
}

int
ref_read_custom_section__0(pos_t pp, end_t ep, struct load_context *ctx)
{
        const uint8_t *p = *pp;
        struct name name;
        struct name k;
        int ret;
        TRY(read_name(&p, ep, &name));
        k.nbytes = 4;
        k.data = "name";
        if (compare_name(&name, &k) == 0) {
                TRY(read_section(&p, ep, "", read_name_section, ctx));
                *pp = p;
                return 0;
        }
        k.nbytes = 8;
        k.data = "dylink.0";
        if (compare_name(&name, &k) == 0) {
                TRY(read_section(&p, ep, "", read_dylink_0_section, ctx));
        } else {
                p = ep;
        }
        *pp = p;
        return 0;
fail:
        return ret;
}

/* the sections of the specification, custom to tag */
const struct section_type *
ref_get_section_type__0(uint8_t id)
{
        return id <= 13 ? &section_types[id] : NULL;
}

/* -- the module */
/*
 * magic and version; known sections in order and at most once; bodies for
 * all functions; as many data segments as announced; no export name twice.
 */
int
ref_module_load_into__0(struct module *m, const uint8_t *p, end_t ep,
                        struct load_context *ctx)
{
        uint32_t v;
        int ret;
        memset(m, 0, sizeof(*m));
        ctx->module = m;
        m->bin = p;
        TRY(read_u32(&p, ep, &v));
        REJECT(v != 0x6d736100, EINVAL);
        TRY(read_u32(&p, ep, &v));
        REJECT(v != 1, EINVAL);
        uint8_t last = 0;
        while (p < ep) {
                struct section s;
                TRY(section_load(&s, &p, ep));
                const struct section_type *t = get_section_type(s.id);
                REJECT(t == NULL, EINVAL);
                if (s.id != 0) {
                        REJECT(last >= t->order, EINVAL);
                        last = t->order;
                }
                if (t->read != NULL) {
                        const uint8_t *sp = s.data;
                        TRY(read_section(&sp, sp + s.size, t->name, t->read,
                                         ctx));
                }
        }
        REJECT((m->funcs == NULL) != (m->nfuncs == 0), EINVAL);
        REJECT(ctx->has_datacount && ctx->ndatas_in_datacount != m->ndatas,
               EINVAL);
        qsort(m->exports, m->nexports, sizeof(*m->exports), cmp_export);
        uint32_t i;
        for (i = 0; i < m->nexports; i++) {
                REJECT(i + 1 < m->nexports &&
                               compare_name(&m->exports[i].name,
                                            &m->exports[i + 1].name) == 0,
                       EINVAL);
        }
        return 0;
fail:
        return ret;
}

int
ref_cmp_export__0(const void *a, const void *b)
{
        return compare_name(&((const struct wasm_export *)a)->name,
                            &((const struct wasm_export *)b)->name);
}

int
ref_module_create__0(struct module **mp, const uint8_t *p, end_t ep,
                     struct load_context *ctx)
{
        struct mem_context *mctx = ctx->mctx;
        struct module *m = mem_zalloc(mctx, sizeof(*m));
        if (m == NULL) {
                return ENOMEM;
        }
        int ret = module_load_into(m, p, ep, ctx);
        if (ret != 0) {
                module_destroy(mctx, m);
                return ret;
        }
        *mp = m;
        return 0;
}

void
ref_module_unload__0(struct mem_context *mctx, struct module *m)
{
        uint32_t i;
        for (i = 0; i < m->ntypes; i++) {
                clear_functype(mctx, &m->types[i]);
        }
        mem_free(mctx, m->types, m->ntypes * sizeof(*m->types));
        module_funcs_clear(mctx, m, m->nfuncs);
        mem_free(mctx, m->functypeidxes,
                 m->nfuncs * sizeof(*m->functypeidxes));
        mem_free(mctx, m->tables, m->ntables * sizeof(*m->tables));
        mem_free(mctx, m->mems, m->nmems * sizeof(*m->mems));
        for (i = 0; i < m->nglobals; i++) {
                clear_global(mctx, &m->globals[i]);
        }
        mem_free(mctx, m->globals, m->nglobals * sizeof(*m->globals));
        mem_free(mctx, m->tags, m->ntags * sizeof(*m->tags));
        for (i = 0; i < m->nelems; i++) {
                clear_element(mctx, &m->elems[i]);
        }
        mem_free(mctx, m->elems, m->nelems * sizeof(*m->elems));
        for (i = 0; i < m->ndatas; i++) {
                clear_data(mctx, &m->datas[i]);
        }
        mem_free(mctx, m->datas, m->ndatas * sizeof(*m->datas));
        mem_free(mctx, m->imports, m->nimports * sizeof(*m->imports));
        mem_free(mctx, m->exports, m->nexports * sizeof(*m->exports));
        if (m->dylink != NULL) {
                clear_dylink(mctx, m->dylink);
                mem_free(mctx, m->dylink, sizeof(*m->dylink));
        }
        memset(m, 0, sizeof(*m));
}

void
ref_module_destroy__0(struct mem_context *mctx, struct module *m)
{
        module_unload(mctx, m);
        mem_free(mctx, m, sizeof(*m));
}
