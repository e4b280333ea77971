/* How an element of a table is checked, read, written and added. */
#include <errno.h>
#include <string.h>
#include "bitmap.h"
#include "cell.h"
#include "context.h"
#include "exec.h"
#include "expr.h"
#include "instance.h"
#include "mem.h"
#include "type.h"
#include "util.h"

#define CSZ(t) ((size_t)valtype_cellsize((t)->type->et))

/* [offset, +n) within the table */
int
ref_table_access__0(struct exec_context *ctx, uint32_t tableidx,
                    uint32_t offset, uint32_t n)
{
        const struct tableinst *t = VEC_ELEM(ctx->instance->tables, tableidx);
        if (offset > t->size || n > t->size - offset) {
                return trap_with_id(ctx, TRAP_OUT_OF_BOUNDS_TABLE_ACCESS, "");
        }
        return 0;
}

int
ref_table_access__1(struct exec_context *ctx, uint32_t tableidx,
                    uint32_t offset, uint32_t n)
{
        const struct tableinst *t = VEC_ELEM(ctx->instance->tables, tableidx);
        if ((uint64_t)offset + n > t->size) {
                return trap_with_id(ctx, TRAP_OUT_OF_BOUNDS_TABLE_ACCESS, "");
        }
        return 0;
}

/* both ranges checked before anything is written */
int
ref_table_init__0(struct exec_context *ctx, uint32_t tableidx,
                  uint32_t elemidx, uint32_t d, uint32_t s, uint32_t n)
{
        const struct instance *inst = ctx->instance;
        const struct element *e = &inst->module->elems[elemidx];
        bool dropped = bitmap_test(&inst->elem_dropped, elemidx);
        if ((dropped && !(s == 0 && n == 0)) || s > e->init_size ||
            n > e->init_size - s) {
                return trap_with_id(ctx, TRAP_OUT_OF_BOUNDS_ELEMENT_ACCESS,
                                    "");
        }
        int ret = table_access(ctx, tableidx, d, n);
        if (ret != 0) {
                return ret;
        }
        struct tableinst *t = VEC_ELEM(inst->tables, tableidx);
        size_t csz = CSZ(t);
        uint32_t i;
        for (i = 0; i < n; i++) {
                struct val v;
                if (e->funcs != NULL) {
                        v.u.funcref.func =
                                VEC_ELEM(inst->funcs, e->funcs[s + i]);
                } else {
                        ret = exec_const_expr(&e->init_exprs[s + i], e->type,
                                              &v, ctx);
                        if (ret != 0) {
                                return ret;
                        }
                }
                val_to_cells(&v, &t->cells[(size_t)(d + i) * csz],
                             (uint32_t)csz);
        }
        return 0;
}

void
ref_table_set__0(struct tableinst *t, uint32_t i, const struct val *v)
{
        val_to_cells(v, &t->cells[i * CSZ(t)], (uint32_t)CSZ(t));
}

void
ref_table_get__0(struct tableinst *t, uint32_t i, struct val *v)
{
        val_from_cells(v, &t->cells[i * CSZ(t)], (uint32_t)CSZ(t));
}

/* in range, not null, of the expected type: in this order */
int
ref_table_get_func__0(struct exec_context *ctx, const struct tableinst *t,
                      uint32_t i, const struct functype *ft,
                      const struct funcinst **fip)
{
        if (i >= t->size) {
                return trap_with_id(
                        ctx, TRAP_CALL_INDIRECT_OUT_OF_BOUNDS_TABLE_ACCESS,
                        "");
        }
        struct val v;
        val_from_cells(&v, &t->cells[i * CSZ(t)], (uint32_t)CSZ(t));
        const struct funcinst *fi = v.u.funcref.func;
        if (fi == NULL) {
                return trap_with_id(ctx, TRAP_CALL_INDIRECT_NULL_FUNCREF, "");
        }
        if (compare_functype(ft, funcinst_functype(fi)) != 0) {
                return trap_with_id(ctx, TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH,
                                    "");
        }
        *fip = fi;
        return 0;
}

/* all or nothing; the elements added hold the value */
int
ref_table_grow__0(struct tableinst *t, const struct val *v, uint32_t n)
{
        if (n == 0) {
                return (int)t->size;
        }
        uint32_t newsize;
        if (ADD_U32_OVERFLOW(t->size, n, &newsize) ||
            newsize > t->type->lim.max) {
                return -1;
        }
        size_t csz = CSZ(t);
        size_t ncells;
        size_t bytes;
        if (MUL_SIZE_OVERFLOW((size_t)newsize, csz, &ncells) ||
            MUL_SIZE_OVERFLOW(ncells, sizeof(*t->cells), &bytes)) {
                return -1;
        }
        void *np = mem_extend(t->mctx, t->cells,
                              (size_t)t->size * csz * sizeof(*t->cells),
                              bytes);
        if (np == NULL) {
                return -1;
        }
        t->cells = np;
        uint32_t i;
        for (i = t->size; i < newsize; i++) {
                val_to_cells(v, &t->cells[i * csz], (uint32_t)csz);
        }
        uint32_t oldsize = t->size;
        t->size = newsize;
        return (int)oldsize;
}

/* the minimum number of null elements */
int
ref_table_instance_create__0(struct mem_context *mctx, struct tableinst **tip,
                             const struct tabletype *tt)
{
        int ret;
        struct tableinst *t = mem_zalloc(mctx, sizeof(*t));
        if (t == NULL) {
                ret = ENOMEM;
                goto fail;
        }
        t->type = tt;
        t->mctx = mctx;
        t->size = tt->lim.min;
        size_t ncells;
        if (MUL_SIZE_OVERFLOW((size_t)t->size,
                              (size_t)valtype_cellsize(tt->et), &ncells)) {
                ret = EOVERFLOW;
                goto fail;
        }
        if (ncells > 0) {
                t->cells = mem_calloc(mctx, sizeof(*t->cells), ncells);
                if (t->cells == NULL) {
                        ret = ENOMEM;
                        goto fail;
                }
        }
        *tip = t;
        return 0;
fail:
        mem_free(mctx, t, sizeof(*t));
        return ret;
}

void
ref_elem_drop__0(struct exec_context *ctx, uint32_t i)
{
        bitmap_set(&ctx->instance->elem_dropped, i);
}
