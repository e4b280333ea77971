/*
 * The module writer: what each part of a module looks like in the binary
 * format.
 */
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#include "endian.h"
#include "expr.h"
#include "expr_parser.h"
#include "module_writer.h"
#include "type.h"

#struct "lib/module_writer.c" writer

void writer_write(struct writer *, const void *, size_t);
void count(struct writer *, const void *, size_t);
void write_to_file(struct writer *, const void *, size_t);
void write_leb_u32(struct writer *, uint32_t);
void write_valtype(struct writer *, enum valtype);
void write_resulttype(struct writer *, const struct resulttype *);
void write_functype(struct writer *, const struct functype *);
void write_name(struct writer *, const struct name *);
void write_limits(struct writer *, const struct limits *, uint8_t, uint8_t);
void write_tabletype(struct writer *, const struct tabletype *);
void write_memtype(struct writer *, const struct memtype *);
void write_tagtype(struct writer *, const struct tagtype *);
void write_globaltype(struct writer *, const struct globaltype *);
void write_importdesc(struct writer *, const struct importdesc *);
void write_import(struct writer *, const struct import *);
void write_expr(struct writer *, const struct expr *);
void write_global(struct writer *, const struct global *);
void write_exportdesc(struct writer *, const struct exportdesc *);
void write_export(struct writer *, const struct wasm_export *);
void write_element(struct writer *, const struct element *);
void write_locals(struct writer *, const struct localtype *);
void write_code(struct writer *, const struct func *);
void write_func(struct writer *, const struct func *);
void write_data(struct writer *, const struct data *);
void write_type_section(struct writer *, const struct module *);
void write_import_section(struct writer *, const struct module *);
void write_function_section(struct writer *, const struct module *);
void write_table_section(struct writer *, const struct module *);
void write_memory_section(struct writer *, const struct module *);
void write_tag_section(struct writer *, const struct module *);
void write_global_section(struct writer *, const struct module *);
void write_export_section(struct writer *, const struct module *);
void write_start_section(struct writer *, const struct module *);
void write_element_section(struct writer *, const struct module *);
void write_datacount_section(struct writer *, const struct module *);
void write_code_section(struct writer *, const struct module *);
void write_data_section(struct writer *, const struct module *);
typedef void (*writefn)(struct writer *, const struct module *);
void write_section(struct writer *, uint8_t, writefn, const struct module *);
void module_write1(struct writer *, const struct module *);

static void
u8(struct writer *w, uint8_t x)
{
        writer_write(w, &x, 1);
}

static void
u32(struct writer *w, uint32_t x)
{
        writer_write(w, &x, 4);
}

/* -- where bytes go */
void
ref_writer_write__0(struct writer *w, const void *p, size_t n)
{
        w->write(w, p, n);
}

void
ref_count__0(struct writer *w, const void *p, size_t n)
{
        if (w->error != 0) {
                return;
        }
        if (n > UINT32_MAX - w->size) {
                w->error = EOVERFLOW;
        }
        w->size += n;
}

/* an error stays; nothing is written after one, or for no bytes */
void
ref_write_to_file__0(struct writer *w, const void *p, size_t n)
{
        if (w->error != 0) {
                return;
        }
        if (n > UINT32_MAX - w->size) {
                w->error = EOVERFLOW;
        }
        if (n == 0) {
                return;
        }
        if (fwrite(p, n, 1, w->fp) != 1) {
                int e = ferror(w->fp);
                w->error = e != 0 ? e : EIO;
                return;
        }
        w->size += n;
}

/* -- numbers and types */
void
ref_write_leb_u32__0(struct writer *w, uint32_t x)
{
        do {
                uint8_t b = x & 0x7f;
                x >>= 7;
                if (x != 0) {
                        b |= 0x80;
                }
                writer_write(w, &b, 1);
        } while (x != 0);
}

void
ref_write_leb_u32__1(struct writer *w, uint32_t x)
{
        while (x >= 0x80) {
                uint8_t b = x | 0x80;
                writer_write(w, &b, 1);
                x >>= 7;
        }
        uint8_t b = x;
        writer_write(w, &b, 1);
}

void
ref_write_valtype__0(struct writer *w, enum valtype t)
{
        u8(w, t);
}

void
ref_write_resulttype__0(struct writer *w, const struct resulttype *rt)
{
        write_leb_u32(w, rt->ntypes);
        uint32_t i;
        for (i = 0; i < rt->ntypes; i++) {
                write_valtype(w, rt->types[i]);
        }
}

void
ref_write_functype__0(struct writer *w, const struct functype *ft)
{
        u8(w, 0x60);
        write_resulttype(w, &ft->parameter);
        write_resulttype(w, &ft->result);
}

void
ref_write_name__0(struct writer *w, const struct name *name)
{
        write_leb_u32(w, name->nbytes);
        writer_write(w, name->data, name->nbytes);
}

void
ref_write_limits__0(struct writer *w, const struct limits *lim, uint8_t flags,
                    uint8_t shift)
{
        bool max = lim->max != UINT32_MAX || (flags & 2) != 0;
        if (max) {
                u8(w, flags | 1);
                write_leb_u32(w, lim->min);
                write_leb_u32(w, lim->max);
        } else {
                u8(w, flags);
                write_leb_u32(w, lim->min);
        }
        if (flags & 8) {
                write_leb_u32(w, shift);
        }
}

void
ref_write_tabletype__0(struct writer *w, const struct tabletype *tt)
{
        write_valtype(w, tt->et);
        write_limits(w, &tt->lim, 0, 0);
}

void
ref_write_memtype__0(struct writer *w, const struct memtype *mt)
{
        if (mt->page_shift != 16) {
                write_limits(w, &mt->lim, mt->flags | 8, mt->page_shift);
        } else {
                write_limits(w, &mt->lim, mt->flags, 0);
        }
}

void
ref_write_tagtype__0(struct writer *w, const struct tagtype *tt)
{
        write_leb_u32(w, 0);
        write_leb_u32(w, tt->typeidx);
}

void
ref_write_globaltype__0(struct writer *w, const struct globaltype *gt)
{
        write_valtype(w, gt->t);
        switch (gt->mut) {
        case GLOBAL_CONST:
                u8(w, 0);
                break;
        case GLOBAL_VAR:
                u8(w, 1);
                break;
        default:
                __builtin_unreachable();
        }
}

/* -- imports, globals, exports */
void
ref_write_importdesc__0(struct writer *w, const struct importdesc *d)
{
        u8(w, d->type);
        switch (d->type) {
        case EXTERNTYPE_FUNC:
                write_leb_u32(w, d->u.typeidx);
                break;
        case EXTERNTYPE_TABLE:
                write_tabletype(w, &d->u.tabletype);
                break;
        case EXTERNTYPE_MEMORY:
                write_memtype(w, &d->u.memtype);
                break;
        case EXTERNTYPE_GLOBAL:
                write_globaltype(w, &d->u.globaltype);
                break;
        case EXTERNTYPE_TAG:
                write_tagtype(w, &d->u.tagtype);
                break;
        }
}

void
ref_write_import__0(struct writer *w, const struct import *im)
{
        write_name(w, &im->module_name);
        write_name(w, &im->name);
        write_importdesc(w, &im->desc);
}

void
ref_write_expr__0(struct writer *w, const struct expr *e)
{
        writer_write(w, e->start, expr_end(e) - e->start);
}

void
ref_write_global__0(struct writer *w, const struct global *g)
{
        write_globaltype(w, &g->type);
        write_expr(w, &g->init);
}

void
ref_write_exportdesc__0(struct writer *w, const struct exportdesc *d)
{
        if (d->type <= 4) {
                u8(w, d->type);
        }
        write_leb_u32(w, d->idx);
}

void
ref_write_exportdesc__1(struct writer *w, const struct exportdesc *d)
{
        u8(w, d->type);
        write_leb_u32(w, d->idx);
}

void
ref_write_export__0(struct writer *w, const struct wasm_export *ex)
{
        write_name(w, &ex->name);
        write_exportdesc(w, &ex->desc);
}

/*
 * bit 0: passive or declarative
 * bit 1: has an explicit table, or is declarative
 * bit 2: made of expressions
 */
static void
element(struct writer *w, const struct element *e, bool exprs)
{
        uint32_t kind;
        switch (e->mode) {
        case ELEM_MODE_ACTIVE:
                kind = e->table != 0 || e->type != TYPE_funcref ? 2 : 0;
                break;
        case ELEM_MODE_PASSIVE:
                kind = 1;
                break;
        case ELEM_MODE_DECLARATIVE:
                kind = 3;
                break;
        default:
                __builtin_unreachable();
        }
        kind |= exprs ? 4 : 0;
        write_leb_u32(w, kind);
        if ((kind & 3) == 2) {
                write_leb_u32(w, e->table);
        }
        if ((kind & 1) == 0) {
                write_expr(w, &e->offset);
        }
        if ((kind & 3) != 0) {
                if (!exprs) {
                        u8(w, 0);
                } else {
                        u8(w, e->type);
                }
        }
        write_leb_u32(w, e->init_size);
        uint32_t i;
        if (exprs) {
                for (i = 0; i < e->init_size; i++) {
                        write_expr(w, &e->init_exprs[i]);
                }
        } else {
                for (i = 0; i < e->init_size; i++) {
                        write_leb_u32(w, e->funcs[i]);
                }
        }
}

void
ref_write_element__0(struct writer *w, const struct element *e)
{
        if (e->funcs != NULL) {
                element(w, e, false);
        } else {
                element(w, e, true);
        }
}

/* -- code and data */
void
ref_write_locals__0(struct writer *w, const struct localtype *lt)
{
        write_leb_u32(w, lt->nlocalchunks);
        uint32_t i;
        for (i = 0; i < lt->nlocalchunks; i++) {
                const struct localchunk *c = &lt->localchunks[i];
                write_leb_u32(w, c->n);
                u8(w, c->type);
        }
}

void
ref_write_code__0(struct writer *w, const struct func *f)
{
        write_locals(w, &f->localtype);
        write_expr(w, &f->e);
}

/* its size first */
void
ref_write_func__0(struct writer *w, const struct func *f)
{
        struct writer c;
        memset(&c, 0, sizeof(c));
        c.write = count;
        write_code(&c, f);
        if (c.error != 0) {
                w->error = c.error;
                return;
        }
        write_leb_u32(w, c.size);
        write_code(w, f);
}

void
ref_write_data__0(struct writer *w, const struct data *d)
{
        if (d->mode == DATA_MODE_PASSIVE) {
                write_leb_u32(w, 1);
        } else {
                if (d->memory == 0) {
                        write_leb_u32(w, 0);
                } else {
                        write_leb_u32(w, 2);
                        write_leb_u32(w, d->memory);
                }
                write_expr(w, &d->offset);
        }
        write_leb_u32(w, d->init_size);
        writer_write(w, d->init, d->init_size);
}

/* -- sections: nothing when there is nothing in them */
#define VECTOR(n, each)                                                       \
        if (n == 0) {                                                         \
                return;                                                       \
        }                                                                     \
        write_leb_u32(w, n);                                                  \
        uint32_t i;                                                           \
        for (i = 0; i < n; i++) {                                             \
                each;                                                         \
        }

void
ref_write_type_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->ntypes, write_functype(w, &m->types[i]))
}

void
ref_write_import_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->nimports, write_import(w, &m->imports[i]))
}

void
ref_write_function_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->nfuncs, write_leb_u32(w, m->functypeidxes[i]))
}

void
ref_write_table_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->ntables, write_tabletype(w, &m->tables[i]))
}

void
ref_write_memory_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->nmems, write_memtype(w, &m->mems[i]))
}

void
ref_write_tag_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->ntags, write_tagtype(w, &m->tags[i]))
}

void
ref_write_global_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->nglobals, write_global(w, &m->globals[i]))
}

void
ref_write_export_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->nexports, write_export(w, &m->exports[i]))
}

void
ref_write_start_section__0(struct writer *w, const struct module *m)
{
        if (m->has_start) {
                write_leb_u32(w, m->start);
        }
}

void
ref_write_element_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->nelems, write_element(w, &m->elems[i]))
}

void
ref_write_datacount_section__0(struct writer *w, const struct module *m)
{
        if (m->ndatas != 0) {
                write_leb_u32(w, m->ndatas);
        }
}

void
ref_write_code_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->nfuncs, write_func(w, &m->funcs[i]))
}

void
ref_write_data_section__0(struct writer *w, const struct module *m)
{
        VECTOR(m->ndatas, write_data(w, &m->datas[i]))
}

void
ref_write_section__0(struct writer *w, uint8_t id, writefn fn,
                     const struct module *m)
{
        struct writer c;
        memset(&c, 0, sizeof(c));
        c.write = count;
        fn(&c, m);
        if (c.error != 0) {
                w->error = c.error;
                return;
        }
        if (c.size > 0) {
                u8(w, id);
                write_leb_u32(w, c.size);
                fn(w, m);
        }
}

/* -- the module */
static const struct {
        uint8_t id;
        writefn fn;
} order[] = {
        {1, write_type_section},    {2, write_import_section},
        {3, write_function_section}, {4, write_table_section},
        {5, write_memory_section},  {13, write_tag_section},
        {6, write_global_section},  {7, write_export_section},
        {8, write_start_section},   {9, write_element_section},
        {12, write_datacount_section}, {10, write_code_section},
        {11, write_data_section},
};

void
ref_module_write1__0(struct writer *w, const struct module *m)
{
        u32(w, 0x6d736100);
        u32(w, 1);
        uint32_t i;
        for (i = 0; i < 13; i++) {
                write_section(w, order[i].id, order[i].fn, m);
        }
}

int
ref_module_write__0(const char *filename, const struct module *m)
{
        FILE *fp = fopen(filename, "w");
        if (fp == NULL) {
                return errno;
        }
        struct writer w;
        memset(&w, 0, sizeof(w));
        w.write = write_to_file;
        w.fp = fp;
        module_write1(&w, m);
        if (fclose(fp) != 0) {
                return errno;
        }
        return w.error;
}

/* -- where an expression ends: behind the instruction nothing follows */
const uint8_t *
ref_expr_end__0(const struct expr *e)
{
        struct parse_expr_context c;
        c.block_level = 0;
        const uint8_t *p = e->start;
        const uint8_t *last;
        do {
                last = p;
                parse_expr(&p, &c);
        } while (p != NULL);
        return last + 1;
}
