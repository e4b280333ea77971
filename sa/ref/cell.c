/* Values as cells: their sizes, positions and copies. */
#include <string.h>
#include "cell.h"
#include "context.h"
#include "exec.h"
#include "instance.h"
#include "module.h"
#include "type.h"

uint32_t
ref_valtype_cellsize__0(enum valtype t)
{
        switch (t) {
        case TYPE_i32:
        case TYPE_f32:
                return 1;
        case TYPE_i64:
        case TYPE_f64:
                return 2;
        case TYPE_v128:
                return 4;
        case TYPE_funcref:
        case TYPE_externref:
                return sizeof(void *) / 4;
        case TYPE_exnref:
                return EXNREF_NCELLS;
        default:
                __builtin_unreachable();
        }
}

/* where the value idx begins, and its size */
uint32_t
ref_resulttype_cellidx__0(const struct resulttype *rt, uint32_t idx,
                          uint32_t *cszp)
{
        if (rt->cellidx.cellidxes != NULL) {
                const uint16_t *p = rt->cellidx.cellidxes + idx;
                uint16_t at = p[0];
                if (cszp != NULL) {
                        *cszp = p[1] - at;
                }
                return at;
        }
        uint32_t sum = 0;
        uint32_t i;
        for (i = 0; i < idx; i++) {
                sum += valtype_cellsize(rt->types[i]);
        }
        if (cszp != NULL) {
                *cszp = valtype_cellsize(rt->types[idx]);
        }
        return sum;
}

uint32_t
ref_resulttype_cellsize__0(const struct resulttype *rt)
{
        return resulttype_cellidx(rt, rt->ntypes, NULL);
}

uint32_t
ref_localtype_cellidx__0(const struct localtype *lt, uint32_t idx,
                         uint32_t *cszp)
{
        if (lt->cellidx.cellidxes != NULL) {
                const uint16_t *p = lt->cellidx.cellidxes + idx;
                uint16_t at = p[0];
                if (cszp != NULL) {
                        *cszp = p[1] - at;
                }
                return at;
        }
        const struct localchunk *c = lt->localchunks;
        uint32_t sum = 0;
        while (idx > 0) {
                uint32_t n = c->n;
                if (n > idx) {
                        n = idx;
                }
                sum += n * valtype_cellsize(c->type);
                idx -= n;
                if (n == c->n) {
                        c++;
                }
        }
        if (cszp != NULL) {
                *cszp = valtype_cellsize(c->type);
        }
        return sum;
}

uint32_t
ref_localtype_cellsize__0(const struct localtype *lt)
{
        return localtype_cellidx(lt, lt->nlocals, NULL);
}

/* the parameters come first, then the locals */
uint32_t
ref_frame_locals_cellidx__0(struct exec_context *ctx, uint32_t idx,
                            uint32_t *cszp)
{
        if (ctx->fast) {
                const struct local_info_fast *f = &ctx->local_u.fast;
                uint32_t base;
                const uint16_t *p;
                if (idx < f->nparams) {
                        p = f->paramtype_cellidxes + idx;
                        base = 0;
                } else {
                        p = f->localtype_cellidxes + (idx - f->nparams);
                        base = f->paramcsz;
                }
                uint16_t at = p[0];
                *cszp = p[1] - at;
                return base + at;
        }
        const struct local_info_slow *s = &ctx->local_u.slow;
        uint32_t n = s->paramtype->ntypes;
        if (idx < n) {
                return resulttype_cellidx(s->paramtype, idx, cszp);
        }
        return resulttype_cellsize(s->paramtype) +
               localtype_cellidx(s->localtype, idx - n, cszp);
}

void
ref_cells_zero__0(struct cell *cells, uint32_t n)
{
        memset(cells, 0, sizeof(*cells) * n);
}

void
ref_cells_copy__0(struct cell *restrict d, const struct cell *restrict s,
                  uint32_t n)
{
        memcpy(d, s, n * sizeof(*d));
}

void
ref_cells_copy__1(struct cell *restrict d, const struct cell *restrict s,
                  uint32_t n)
{
        if (n == 1) {
                memcpy(d, s, 4);
        } else if (n == 2) {
                memcpy(d, s, 8);
        } else {
                memcpy(d, s, n * sizeof(*d));
        }
}

/* overlapping or not */
void
ref_cells_move__0(struct cell *d, const struct cell *s, size_t n)
{
        memmove(d, s, n * sizeof(*d));
}

void
ref_cells_move__1(struct cell *d, const struct cell *s, size_t n)
{
        size_t i;
        if (d <= s) {
                while (n > 0) {
                        *d++ = *s++;
                        n--;
                }
        } else {
                d += n - 1;
                s += n - 1;
                while (n > 0) {
                        *d-- = *s--;
                        n--;
                }
        }
}

void
ref_val_to_cells__0(const struct val *v, struct cell *c, uint32_t n)
{
        cells_copy(c, v->u.cells, n);
}

void
ref_val_from_cells__0(struct val *v, const struct cell *c, uint32_t n)
{
        cells_copy(v->u.cells, c, n);
}

void
ref_vals_to_cells__0(const struct val *v, struct cell *c,
                     const struct resulttype *rt)
{
        uint32_t i;
        for (i = 0; i < rt->ntypes; i++) {
                uint32_t csz = valtype_cellsize(rt->types[i]);
                val_to_cells(v++, c, csz);
                c += csz;
        }
}

void
ref_vals_from_cells__0(struct val *v, const struct cell *c,
                       const struct resulttype *rt)
{
        uint32_t i;
        for (i = 0; i < rt->ntypes; i++) {
                uint32_t csz = valtype_cellsize(rt->types[i]);
                val_from_cells(v++, c, csz);
                c += csz;
        }
}

void
ref_global_set__0(struct globalinst *g, const struct val *v)
{
        g->val = *v;
}

void
ref_global_get__0(struct globalinst *g, struct val *v)
{
        *v = g->val;
}
