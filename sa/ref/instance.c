/*
 * Types, imports, instantiation and the functions with which host functions
 * reach guest memory.
 */
#include <errno.h>
#include <limits.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#include "bitmap.h"
#include "cconv.h"
#include "cell.h"
#include "escape.h"
#include "exec.h"
#include "host_instance.h"
#include "instance.h"
#include "mem.h"
#include "module.h"
#include "report.h"
#include "shared_memory_impl.h"
#include "suspend.h"
#include "type.h"
#include "usched.h"
#include "util.h"

typedef int (*check_t)(const struct import_object_entry *, const void *);

bool match_limits(const struct limits *, const struct limits *, uint32_t);
int check_functype(const struct import_object_entry *, const void *);
int check_tabletype(const struct import_object_entry *, const void *);
int check_memtype(const struct import_object_entry *, const void *);
int check_globaltype(const struct import_object_entry *, const void *);
int check_tagtype(const struct import_object_entry *, const void *);
int find_entry_for_import(const struct import_object *, const struct import *,
                          check_t, const void *,
                          const struct import_object_entry **,
                          struct report *);
int resolve_imports(struct instance *, const struct import_object *,
                    struct report *);
int resulttype_from_string(struct mem_context *, const char *, const char *,
                           struct resulttype *);
const struct importdesc *module_importdesc(const struct module *,
                                           enum externtype, uint32_t);
int tag_instance_create(struct mem_context *, struct taginst **,
                        const struct functype *);
void tag_instance_destroy(struct mem_context *, struct taginst *);
int instance_execute_init(struct exec_context *);
void _dtor(struct mem_context *, struct import_object *);
int dummy_func(struct exec_context *, struct host_instance *,
               const struct functype *, const struct cell *, struct cell *);

#define TRY(x)                                                                \
        do {                                                                  \
                ret = (x);                                                    \
                if (ret != 0) {                                               \
                        goto fail;                                            \
                }                                                             \
        } while (0)

/* -- types */
bool
ref_is_numtype__0(enum valtype t)
{
        return t == 0x7f || t == 0x7e || t == 0x7d || t == 0x7c;
}

bool
ref_is_vectype__0(enum valtype t)
{
        return t == 0x7b;
}

bool
ref_is_reftype__0(enum valtype t)
{
        return t == 0x70 || t == 0x6f || t == 0x69;
}

bool
ref_is_valtype__0(enum valtype t)
{
        return is_numtype(t) || is_vectype(t) || is_reftype(t);
}

/* exports are sorted by name, and names are unique */
int
ref_module_find_export__0(const struct module *m, const struct name *name,
                          uint32_t type, uint32_t *idxp)
{
        uint32_t lo = 0;
        uint32_t hi = m->nexports;
        while (lo < hi) {
                uint32_t mid = lo + (hi - lo) / 2;
                const struct wasm_export *ex = &m->exports[mid];
                int c = compare_name(&ex->name, name);
                if (c == 0) {
                        if (ex->desc.type != type) {
                                return ENOENT;
                        }
                        *idxp = ex->desc.idx;
                        return 0;
                }
                if (c < 0) {
                        lo = mid + 1;
                } else {
                        hi = mid;
                }
        }
        return ENOENT;
}

/* (or one after the other) */
int
ref_module_find_export__1(const struct module *m, const struct name *name,
                          uint32_t type, uint32_t *idxp)
{
        uint32_t i;
        for (i = 0; i < m->nexports; i++) {
                const struct wasm_export *ex = &m->exports[i];
                if (compare_name(&ex->name, name) == 0 &&
                    ex->desc.type == type) {
                        *idxp = ex->desc.idx;
                        return 0;
                }
        }
        return ENOENT;
}

/* the idx-th import of a kind */
const struct import *
ref_module_import__0(const struct module *m, enum externtype type,
                     uint32_t idx)
{
        uint32_t i;
        for (i = 0; i < m->nimports; i++) {
                if (m->imports[i].desc.type == type) {
                        if (idx == 0) {
                                return &m->imports[i];
                        }
                        idx--;
                }
        }
        return NULL;
}

const struct importdesc *
ref_module_importdesc__0(const struct module *m, enum externtype type,
                         uint32_t idx)
{
        return &module_import(m, type, idx)->desc;
}

/* imports come first in every index space */
const struct functype *
ref_module_functype__0(const struct module *m, uint32_t idx)
{
        uint32_t n = m->nimportedfuncs;
        return &m->types[idx < n ? module_importdesc(m, EXTERNTYPE_FUNC, idx)
                                           ->u.typeidx
                                 : m->functypeidxes[idx - n]];
}

const struct memtype *
ref_module_memtype__0(const struct module *m, uint32_t idx)
{
        uint32_t n = m->nimportedmems;
        return idx < n ? &module_importdesc(m, EXTERNTYPE_MEMORY, idx)
                                  ->u.memtype
                       : &m->mems[idx - n];
}

const struct tabletype *
ref_module_tabletype__0(const struct module *m, uint32_t idx)
{
        uint32_t n = m->nimportedtables;
        return idx < n ? &module_importdesc(m, EXTERNTYPE_TABLE, idx)
                                  ->u.tabletype
                       : &m->tables[idx - n];
}

const struct globaltype *
ref_module_globaltype__0(const struct module *m, uint32_t idx)
{
        uint32_t n = m->nimportedglobals;
        return idx < n ? &module_importdesc(m, EXTERNTYPE_GLOBAL, idx)
                                  ->u.globaltype
                       : &m->globals[idx - n].type;
}

const struct tagtype *
ref_module_tagtype__0(const struct module *m, uint32_t idx)
{
        uint32_t n = m->nimportedtags;
        return idx < n ? &module_importdesc(m, EXTERNTYPE_TAG, idx)->u.tagtype
                       : &m->tags[idx - n];
}

const struct functype *
ref_module_tagtype_functype__0(const struct module *m, const struct tagtype *t)
{
        return &m->types[t->typeidx];
}

const struct functype *
ref_funcinst_functype__0(const struct funcinst *fi)
{
        return fi->is_host ? fi->u.host.type
                           : module_functype(fi->u.wasm.instance->module,
                                             fi->u.wasm.funcidx);
}

const struct functype *
ref_taginst_functype__0(const struct taginst *ti)
{
        return ti->type;
}

/* zero exactly when of the same length with the same types */
int
ref_compare_resulttype__0(const struct resulttype *a,
                          const struct resulttype *b)
{
        uint32_t i;
        if (a->ntypes != b->ntypes) {
                return 1;
        }
        for (i = 0; i < a->ntypes; i++) {
                if (a->types[i] != b->types[i]) {
                        return 1;
                }
        }
        return 0;
}

int
ref_compare_functype__0(const struct functype *a, const struct functype *b)
{
        if (compare_resulttype(&a->parameter, &b->parameter) != 0) {
                return 1;
        }
        return compare_resulttype(&a->result, &b->result);
}

int
ref_compare_name__0(const struct name *a, const struct name *b)
{
        if (a->nbytes == b->nbytes) {
                return memcmp(a->data, b->data, a->nbytes);
        }
        return a->nbytes < b->nbytes ? -1 : 1;
}

int
ref_resulttype_from_string__0(struct mem_context *mctx, const char *p,
                              const char *ep, struct resulttype *t)
{
        size_t n = ep - p;
        size_t i;
        if (n > UINT32_MAX) {
                return EOVERFLOW;
        }
        t->ntypes = (uint32_t)n;
        t->types = NULL;
        if (n > 0) {
                t->types = mem_alloc(mctx, n * sizeof(*t->types));
                if (t->types == NULL) {
                        return ENOMEM;
                }
        }
        for (i = 0; i < n; i++) {
                switch (p[i]) {
                case 'i':
                        t->types[i] = 0x7f;
                        break;
                case 'I':
                        t->types[i] = 0x7e;
                        break;
                case 'f':
                        t->types[i] = 0x7d;
                        break;
                case 'F':
                        t->types[i] = 0x7c;
                        break;
                default:
                        clear_resulttype(mctx, t);
                        t->types = NULL;
                        return EINVAL;
                }
        }
        return 0;
}

void
ref_functype_free__0(struct mem_context *mctx, struct functype *ft)
{
        clear_functype(mctx, ft);
        mem_free(mctx, ft, sizeof(*ft));
}

int
ref_functype_from_string__0(struct mem_context *mctx, const char *p,
                            struct functype **out)
{
        int ret;
        const char *ep;
        struct functype *ft = mem_zalloc(mctx, sizeof(*ft));
        if (ft == NULL) {
                return ENOMEM;
        }
        ret = EINVAL;
        if (*p != '(') {
                goto fail;
        }
        p++;
        ep = strchr(p, ')');
        if (ep == NULL) {
                goto fail;
        }
        TRY(resulttype_from_string(mctx, p, ep, &ft->parameter));
        p = ep + 1;
        TRY(resulttype_from_string(mctx, p, strchr(p, 0), &ft->result));
        *out = ft;
        return 0;
fail:
        functype_free(mctx, ft);
        return ret;
}

int
ref_check_functype_with_string__0(const struct module *m, uint32_t funcidx,
                                  const char *sig)
{
        const struct functype *ft = module_functype(m, funcidx);
        struct mem_context mctx;
        struct functype *want;
        int ret;
        mem_context_init(&mctx);
        ret = functype_from_string(&mctx, sig, &want);
        if (ret == 0) {
                if (compare_functype(ft, want) != 0) {
                        ret = EINVAL;
                }
                functype_free(&mctx, want);
        }
        mem_context_clear(&mctx);
        return ret;
}

uint32_t
ref_memtype_page_shift__0(const struct memtype *t)
{
        return t->page_shift;
}

uint32_t
ref_memtype_page_size__0(const struct memtype *t)
{
        return (uint32_t)1 << memtype_page_shift(t);
}

/* -- import objects */
int
ref_import_object_alloc__0(struct mem_context *mctx, size_t n,
                           struct import_object **out)
{
        struct import_object *im = mem_zalloc(mctx, sizeof(*im));
        if (im == NULL) {
                return ENOMEM;
        }
        im->nentries = n;
        if (n > 0) {
                im->entries = mem_calloc(mctx, n, sizeof(*im->entries));
                if (im->entries == NULL) {
                        mem_free(mctx, im, sizeof(*im));
                        return ENOMEM;
                }
        } else {
                im->entries = NULL;
        }
        *out = im;
        return 0;
}

/* every export under its own name, with its own kind */
int
ref_import_object_create_for_exports__0(struct mem_context *mctx,
                                        struct instance *inst,
                                        const struct name *module_name,
                                        struct import_object **out)
{
        const struct module *m = inst->module;
        struct import_object *im;
        uint32_t i;
        int ret = import_object_alloc(mctx, m->nexports, &im);
        if (ret != 0) {
                return ret;
        }
        for (i = 0; i < m->nexports; i++) {
                const struct wasm_export *ex = &m->exports[i];
                struct import_object_entry *e = &im->entries[i];
                uint32_t idx = ex->desc.idx;
                switch (ex->desc.type) {
                case EXTERNTYPE_FUNC:
                        e->u.func = inst->funcs.p[idx];
                        break;
                case EXTERNTYPE_TABLE:
                        e->u.table = inst->tables.p[idx];
                        break;
                case EXTERNTYPE_MEMORY:
                        e->u.mem = inst->mems.p[idx];
                        break;
                case EXTERNTYPE_GLOBAL:
                        e->u.global = inst->globals.p[idx];
                        break;
                case EXTERNTYPE_TAG:
                        e->u.tag = inst->tags.p[idx];
                        break;
                default:
                        break;
                }
                e->type = ex->desc.type;
                e->module_name = module_name;
                e->name = &ex->name;
        }
        im->use_binary_search = true;
        im->next = NULL;
        *out = im;
        return 0;
}

void
ref_import_object_destroy__0(struct mem_context *mctx,
                             struct import_object *im)
{
        if (im->dtor != NULL) {
                im->dtor(mctx, im);
        }
        mem_free(mctx, im->entries, im->nentries * sizeof(*im->entries));
        mem_free(mctx, im, sizeof(*im));
}

/*
 * an entry is found only under both its names, with its own kind, and only
 * when the check of its type succeeds
 */
int
ref_import_object_find_entry__0(const struct import_object *io,
                                const struct import *im, check_t check,
                                const void *arg,
                                const struct import_object_entry **out,
                                struct report *report)
{
        const struct import_object_entry *e;
        struct escaped_string mname;
        struct escaped_string name;
        size_t i;
        if (io->use_binary_search) {
                if (io->nentries == 0 ||
                    compare_name(io->entries[0].module_name,
                                 &im->module_name) != 0) {
                        return ENOENT;
                }
                size_t lo = 0;
                size_t hi = io->nentries;
                while (lo < hi) {
                        size_t mid = (lo + hi) / 2;
                        e = &io->entries[mid];
                        int c = compare_name(e->name, &im->name);
                        if (c == 0) {
                                if (e->type != im->desc.type) {
                                        goto mismatch;
                                }
                                if (check(e, arg) != 0) {
                                        return EINVAL;
                                }
                                *out = e;
                                return 0;
                        }
                        if (c < 0) {
                                lo = mid + 1;
                        } else {
                                hi = mid;
                        }
                }
                return ENOENT;
        }
        int ret = ENOENT;
        for (i = 0; i < io->nentries; i++) {
                e = &io->entries[i];
                if (compare_name(e->module_name, &im->module_name) != 0 ||
                    compare_name(e->name, &im->name) != 0) {
                        continue;
                }
                if (e->type != im->desc.type) {
mismatch:
                        escape_name(&mname, &im->module_name);
                        escape_name(&name, &im->name);
                        escaped_string_clear(&mname);
                        escaped_string_clear(&name);
                        return EINVAL;
                }
                if (check(e, arg) == 0) {
                        *out = e;
                        return 0;
                }
                ret = EINVAL;
        }
        return ret;
}

int
ref_find_entry_for_import__0(const struct import_object *io,
                             const struct import *im, check_t check,
                             const void *arg,
                             const struct import_object_entry **out,
                             struct report *report)
{
        struct escaped_string mname;
        struct escaped_string name;
        for (; io != NULL; io = io->next) {
                const struct import_object_entry *e;
                int ret = import_object_find_entry(io, im, check, arg, &e,
                                                   report);
                if (ret != EINVAL && ret != ENOENT) {
                        *out = e;
                        return ret;
                }
        }
        escape_name(&mname, &im->module_name);
        escape_name(&name, &im->name);
        escaped_string_clear(&mname);
        escaped_string_clear(&name);
        return ENOENT;
}

/* -- external types: UINT32_MAX stands for no maximum */
bool
ref_match_limits__0(const struct limits *have, const struct limits *want,
                    uint32_t size)
{
        if (size < want->min) {
                return false;
        }
        return want->max == UINT32_MAX ||
               (have->max != UINT32_MAX && have->max <= want->max);
}

int
ref_check_functype__0(const struct import_object_entry *e, const void *want)
{
        return compare_functype(want, funcinst_functype(e->u.func)) != 0
                       ? EINVAL
                       : 0;
}

int
ref_check_tabletype__0(const struct import_object_entry *e, const void *vp)
{
        const struct tabletype *want = vp;
        const struct tableinst *t = e->u.table;
        return t->type->et == want->et &&
                               match_limits(&t->type->lim, &want->lim, t->size)
                       ? 0
                       : EINVAL;
}

int
ref_check_memtype__0(const struct import_object_entry *e, const void *vp)
{
        const struct memtype *want = vp;
        const struct meminst *mi = e->u.mem;
        const struct memtype *have = mi->type;
        return have->flags == want->flags &&
                               have->page_shift == want->page_shift &&
                               match_limits(&have->lim, &want->lim,
                                            mi->size_in_pages)
                       ? 0
                       : EINVAL;
}

int
ref_check_globaltype__0(const struct import_object_entry *e, const void *vp)
{
        const struct globaltype *want = vp;
        const struct globaltype *have = e->u.global->type;
        return have->t == want->t && have->mut == want->mut ? 0 : EINVAL;
}

int
ref_check_tagtype__0(const struct import_object_entry *e, const void *want)
{
        return compare_functype(want, taginst_functype(e->u.tag)) != 0
                       ? EINVAL
                       : 0;
}

/* each import is checked by its kind and takes its place in its space */
int
ref_resolve_imports__0(struct instance *inst, const struct import_object *io,
                       struct report *report)
{
        const struct module *m = inst->module;
        uint32_t i;
        uint32_t nf = 0;
        uint32_t nm = 0;
        uint32_t ng = 0;
        uint32_t nt = 0;
        uint32_t nx = 0;
        int ret;
        for (i = 0; i < m->nimports; i++) {
                const struct import *im = &m->imports[i];
                const struct importdesc *d = &im->desc;
                const struct import_object_entry *e;
                check_t check;
                const void *type;
                switch (d->type) {
                case EXTERNTYPE_FUNC:
                        check = check_functype;
                        type = &m->types[d->u.typeidx];
                        break;
                case EXTERNTYPE_TABLE:
                        check = check_tabletype;
                        type = &d->u.tabletype;
                        break;
                case EXTERNTYPE_MEMORY:
                        check = check_memtype;
                        type = &d->u.memtype;
                        break;
                case EXTERNTYPE_GLOBAL:
                        check = check_globaltype;
                        type = &d->u.globaltype;
                        break;
                case EXTERNTYPE_TAG:
                        check = check_tagtype;
                        type = &m->types[d->u.tagtype.typeidx];
                        break;
                default:
                        break;
                }
                TRY(find_entry_for_import(io, im, check, type, &e, report));
                switch (d->type) {
                case EXTERNTYPE_FUNC:
                        inst->funcs.p[nf++] = e->u.func;
                        break;
                case EXTERNTYPE_TABLE:
                        inst->tables.p[nt++] = e->u.table;
                        break;
                case EXTERNTYPE_MEMORY:
                        inst->mems.p[nm++] = e->u.mem;
                        break;
                case EXTERNTYPE_GLOBAL:
                        inst->globals.p[ng++] = e->u.global;
                        break;
                case EXTERNTYPE_TAG:
                        inst->tags.p[nx++] = e->u.tag;
                        break;
                default:
                        break;
                }
        }
        return 0;
fail:
        return ret;
}

/* -- instances */
/*
 * A shared memory has all of its initial pages from the start (a private
 * one gets them when they are touched).
 */
int
ref_memory_instance_create__0(struct mem_context *mctx, struct meminst **out,
                              const struct memtype *mt)
        NO_THREAD_SAFETY_ANALYSIS
{
        struct meminst *mp = mem_zalloc(mctx, sizeof(*mp));
        if (mp == NULL) {
                return ENOMEM;
        }
        if ((mt->flags & MEMTYPE_FLAG_SHARED) != 0) {
#if defined(TOYWASM_PREALLOC_SHARED_MEMORY)
                uint32_t pages = mt->lim.max;
#else
                uint32_t pages = mt->lim.min;
#endif
                uint64_t n = (uint64_t)pages << memtype_page_shift(mt);
                mp->shared = mem_zalloc(mctx, sizeof(*mp->shared));
                if (mp->shared == NULL) {
                        mem_free(mctx, mp, sizeof(*mp));
                        return ENOMEM;
                }
                if (n > 0) {
                        mp->data = mem_zalloc(mctx, n);
                        if (mp->data == NULL) {
                                mem_free(mctx, mp->shared,
                                         sizeof(*mp->shared));
                                mem_free(mctx, mp, sizeof(*mp));
                                return ENOMEM;
                        }
                }
                mp->allocated = n;
                waiter_list_table_init(&mp->shared->tab);
                toywasm_mutex_init(&mp->shared->lock);
        }
        mp->size_in_pages = mt->lim.min;
        mp->type = mt;
        mp->mctx = mctx;
        *out = mp;
        return 0;
}

void
ref_memory_instance_destroy__0(struct mem_context *mctx, struct meminst *mi)
{
        if (mi == NULL) {
                return;
        }
        if (mi->shared != NULL) {
                struct shared_meminst *s = mi->shared;
                toywasm_mutex_destroy(&s->lock);
                mem_free(mctx, s, sizeof(*s));
        }
        mem_free(mctx, mi->data, mi->allocated);
        mem_free(mctx, mi, sizeof(*mi));
}

int
ref_global_instance_create__0(struct mem_context *mctx,
                              struct globalinst **out,
                              const struct globaltype *gt)
{
        struct globalinst *g = mem_alloc(mctx, sizeof(*g));
        if (g == NULL) {
                return ENOMEM;
        }
        memset(&g->val, 0, sizeof(g->val));
        g->type = gt;
        *out = g;
        return 0;
}

void
ref_global_instance_destroy__0(struct mem_context *mctx, struct globalinst *g)
{
        mem_free(mctx, g, sizeof(*g));
}

int
ref_tag_instance_create__0(struct mem_context *mctx, struct taginst **out,
                           const struct functype *ft)
{
        struct taginst *t = mem_zalloc(mctx, sizeof(*t));
        if (t == NULL) {
                return ENOMEM;
        }
        t->type = ft;
        *out = t;
        return 0;
}

void
ref_tag_instance_destroy__0(struct mem_context *mctx, struct taginst *t)
{
        mem_free(mctx, t, sizeof(*t));
}

void
ref_table_instance_destroy__0(struct mem_context *mctx, struct tableinst *t)
{
        if (t != NULL) {
                size_t n = (size_t)t->size * valtype_cellsize(t->type->et);
                mem_free(mctx, t->cells, n * sizeof(*t->cells));
                mem_free(mctx, t, sizeof(*t));
        }
}

/*
 * Imports first; then an object of its own for everything the module
 * declares, each with its declared type.
 */
int
ref_instance_create_no_init__0(struct mem_context *mctx,
                               const struct module *m, struct instance **out,
                               const struct import_object *io,
                               struct report *report)
{
        struct instance *inst = mem_zalloc(mctx, sizeof(*inst));
        uint32_t i;
        int ret;
        if (inst == NULL) {
                return ENOMEM;
        }
        inst->module = m;
        inst->mctx = mctx;
        uint32_t nf = m->nimportedfuncs + m->nfuncs;
        TRY(_vec_resize(mctx, &inst->funcs, sizeof(*inst->funcs.p), nf));
        uint32_t nm = m->nimportedmems + m->nmems;
        TRY(_vec_resize(mctx, &inst->mems, sizeof(*inst->mems.p), nm));
        uint32_t ng = m->nimportedglobals + m->nglobals;
        TRY(_vec_resize(mctx, &inst->globals, sizeof(*inst->globals.p), ng));
        uint32_t nt = m->nimportedtables + m->ntables;
        TRY(_vec_resize(mctx, &inst->tables, sizeof(*inst->tables.p), nt));
        uint32_t nx = m->nimportedtags + m->ntags;
        TRY(_vec_resize(mctx, &inst->tags, sizeof(*inst->tags.p), nx));
        TRY(resolve_imports(inst, io, report));
        for (i = m->nimportedfuncs; i < nf; i++) {
                struct funcinst *f = mem_zalloc(mctx, sizeof(*f));
                if (f == NULL) {
                        ret = ENOMEM;
                        goto fail;
                }
                f->is_host = false;
                f->u.wasm.instance = inst;
                f->u.wasm.funcidx = i;
                inst->funcs.p[i] = f;
        }
        for (i = m->nimportedmems; i < nm; i++) {
                struct meminst *x;
                TRY(memory_instance_create(mctx, &x, module_memtype(m, i)));
                inst->mems.p[i] = x;
        }
        for (i = m->nimportedglobals; i < ng; i++) {
                struct globalinst *x;
                TRY(global_instance_create(mctx, &x, module_globaltype(m, i)));
                inst->globals.p[i] = x;
        }
        for (i = m->nimportedtables; i < nt; i++) {
                struct tableinst *x;
                TRY(table_instance_create(mctx, &x, module_tabletype(m, i)));
                inst->tables.p[i] = x;
        }
        for (i = m->nimportedtags; i < nx; i++) {
                struct taginst *x;
                TRY(tag_instance_create(
                        mctx, &x,
                        module_tagtype_functype(m, module_tagtype(m, i))));
                inst->tags.p[i] = x;
        }
        TRY(bitmap_alloc(mctx, &inst->data_dropped, m->ndatas));
        TRY(bitmap_alloc(mctx, &inst->elem_dropped, m->nelems));
        *out = inst;
        return 0;
fail:
        instance_destroy(inst);
        return ret;
}

/*
 * Globals, element segments, data segments and the start function, in this
 * order; active and declarative segments are dropped.
 */
int
ref_instance_execute_init__0(struct exec_context *ctx)
{
        struct instance *inst = ctx->instance;
        const struct module *m = inst->module;
        uint32_t i;
        int ret;
        for (i = 0; i < m->nglobals; i++) {
                struct globalinst *g = inst->globals.p[m->nimportedglobals + i];
                TRY(exec_const_expr(&m->globals[i].init, g->type->t, &g->val,
                                    ctx));
        }
        for (i = 0; i < m->nelems; i++) {
                const struct element *e = &m->elems[i];
                if (e->mode == ELEM_MODE_ACTIVE) {
                        struct val v;
                        TRY(exec_const_expr(&e->offset, TYPE_i32, &v, ctx));
                        TRY(table_init(ctx, e->table, i, v.u.i32, 0,
                                       e->init_size));
                }
                if (e->mode != ELEM_MODE_PASSIVE) {
                        elem_drop(ctx, i);
                }
        }
        for (i = 0; i < m->ndatas; i++) {
                const struct data *d = &m->datas[i];
                if (d->mode == DATA_MODE_ACTIVE) {
                        struct val v;
                        TRY(exec_const_expr(&d->offset, TYPE_i32, &v, ctx));
                        TRY(memory_init(ctx, d->memory, i, v.u.i32, 0,
                                        d->init_size));
                        data_drop(ctx, i);
                }
        }
        if (m->has_start) {
                return invoke(inst->funcs.p[m->start], NULL, NULL, ctx);
        }
        return 0;
fail:
        return ret;
}

int
ref_instance_create__0(struct mem_context *mctx, const struct module *m,
                       struct instance **out, const struct import_object *io,
                       struct report *report)
{
        struct instance *inst;
        struct exec_context c;
        int ret = instance_create_no_init(mctx, m, &inst, io, report);
        if (ret != 0) {
                return ret;
        }
        exec_context_init(&c, inst, mctx);
        c.report = report;
        ret = instance_execute_handle_restart(&c, instance_execute_init(&c));
        exec_context_clear(&c);
        if (ret == 0) {
                *out = inst;
        } else {
                instance_destroy(inst);
        }
        return ret;
}

/* imported objects belong to others */
void
ref_instance_destroy__0(struct instance *inst)
{
        const struct module *m = inst->module;
        struct mem_context *mctx = inst->mctx;
        uint32_t i;
        for (i = 0; i < inst->funcs.lsize; i++) {
                if (i >= m->nimportedfuncs) {
                        mem_free(mctx, inst->funcs.p[i],
                                 sizeof(struct funcinst));
                }
        }
        VEC_FREE(mctx, inst->funcs);
        for (i = 0; i < inst->mems.lsize; i++) {
                if (i >= m->nimportedmems) {
                        memory_instance_destroy(mctx, inst->mems.p[i]);
                }
        }
        VEC_FREE(mctx, inst->mems);
        for (i = 0; i < inst->globals.lsize; i++) {
                if (i >= m->nimportedglobals) {
                        global_instance_destroy(mctx, inst->globals.p[i]);
                }
        }
        VEC_FREE(mctx, inst->globals);
        for (i = 0; i < inst->tables.lsize; i++) {
                if (i >= m->nimportedtables) {
                        table_instance_destroy(mctx, inst->tables.p[i]);
                }
        }
        VEC_FREE(mctx, inst->tables);
        for (i = 0; i < inst->tags.lsize; i++) {
                if (i >= m->nimportedtags) {
                        tag_instance_destroy(mctx, inst->tags.p[i]);
                }
        }
        VEC_FREE(mctx, inst->tags);
        bitmap_free(mctx, &inst->data_dropped, m->ndatas);
        bitmap_free(mctx, &inst->elem_dropped, m->nelems);
        mem_free(mctx, inst, sizeof(*inst));
}

int
ref_instance_execute_func__0(struct exec_context *ctx, uint32_t funcidx,
                             const struct resulttype *p,
                             const struct resulttype *r)
{
        return invoke(ctx->instance->funcs.p[funcidx], p, r, ctx);
}

int
ref_instance_execute_func_nocheck__0(struct exec_context *ctx,
                                     uint32_t funcidx)
{
        const struct functype *ft =
                module_functype(ctx->instance->module, funcidx);
        return instance_execute_func(ctx, funcidx, &ft->parameter,
                                     &ft->result);
}

int
ref_instance_execute_continue__0(struct exec_context *ctx)
{
        return exec_expr_continue(ctx);
}

int
ref_instance_execute_handle_restart_once__0(struct exec_context *ctx, int ret)
{
        if (!IS_RESTARTABLE(ret)) {
                return ret;
        }
        suspend_parked(ctx->cluster);
        return instance_execute_continue(ctx);
}

int
ref_instance_execute_handle_restart__0(struct exec_context *ctx, int ret)
{
        do {
                ret = instance_execute_handle_restart_once(ctx, ret);
        } while (IS_RESTARTABLE(ret));
        return ret;
}

/* -- host functions */
void
ref__dtor__0(struct mem_context *mctx, struct import_object *im)
{
        struct funcinst *fis = im->dtor_arg;
        size_t n = im->nentries;
        size_t i;
        if (fis == NULL) {
                return;
        }
        for (i = 0; i < n; i++) {
                if (fis[i].u.host.type != NULL) {
                        functype_free(mctx, (void *)fis[i].u.host.type);
                }
        }
        mem_free(mctx, fis, im->nentries * sizeof(*fis));
}

int
ref_import_object_create_for_host_funcs__0(struct mem_context *mctx,
                                           const struct host_module *modules,
                                           size_t n, struct host_instance *hi,
                                           struct import_object **out)
{
        struct import_object *im = NULL;
        struct funcinst *fis;
        size_t total = 0;
        size_t i;
        size_t j;
        size_t at = 0;
        int ret;
        for (i = 0; i < n; i++) {
                if (SIZE_MAX - total < modules[i].nfuncs) {
                        return EOVERFLOW;
                }
                total += modules[i].nfuncs;
        }
        TRY(import_object_alloc(mctx, total, &im));
        fis = mem_calloc(mctx, total, sizeof(*fis));
        if (fis == NULL) {
                ret = ENOMEM;
                goto fail;
        }
        im->dtor = _dtor;
        im->dtor_arg = fis;
        for (i = 0; i < n; i++) {
                const struct host_module *hm = &modules[i];
                for (j = 0; j < hm->nfuncs; j++) {
                        const struct host_func *hf = &hm->funcs[j];
                        struct functype *ft;
                        TRY(functype_from_string(mctx, hf->type, &ft));
                        fis[at].is_host = true;
                        fis[at].u.host.func = hf->func;
                        fis[at].u.host.type = ft;
                        fis[at].u.host.instance = hi;
                        struct import_object_entry *e = &im->entries[at];
                        e->module_name = hm->module_name;
                        e->name = &hf->name;
                        e->type = EXTERNTYPE_FUNC;
                        e->u.func = &fis[at];
                        at++;
                }
        }
        *out = im;
        return 0;
fail:
        if (im != NULL) {
                import_object_destroy(mctx, im);
        }
        return ret;
}

int
ref_host_func_check_align__0(struct exec_context *ctx, uint32_t addr,
                             size_t align)
{
        if ((addr & (align - 1)) == 0) {
                return 0;
        }
        return trap_with_id(ctx, TRAP_UNALIGNED_MEMORY_ACCESS, "");
}

int
ref_host_func_copyin__0(struct exec_context *ctx, struct meminst *mem,
                        void *host, uint32_t addr, uint32_t len,
                        uint32_t align)
{
        void *p;
        int ret;
        TRY(host_func_check_align(ctx, addr, align));
        TRY(host_func_getptr(ctx, mem, addr, len, &p));
        memcpy(host, p, len);
        return 0;
fail:
        return ret;
}

int
ref_host_func_copyout__0(struct exec_context *ctx, struct meminst *mem,
                         const void *host, uint32_t addr, uint32_t len,
                         uint32_t align)
{
        void *p;
        int ret;
        TRY(host_func_check_align(ctx, addr, align));
        TRY(host_func_getptr(ctx, mem, addr, len, &p));
        memcpy(p, host, len);
        return 0;
fail:
        return ret;
}

int
ref_host_func_getptr__0(struct exec_context *ctx, struct meminst *mem,
                        uint32_t addr, uint32_t n, void **out)
{
        return host_func_getptr2(ctx, mem, addr, n, out, NULL);
}

int
ref_host_func_getptr2__0(struct exec_context *ctx, struct meminst *mem,
                         uint32_t addr, uint32_t n, void **out, bool *moved)
{
        int ret;
        if (mem == NULL) {
                return trap_with_id(ctx, TRAP_MEMORY_NOT_FOUND, "");
        }
        ret = memory_instance_getptr2(mem, addr, 0, n, out, moved);
        if (ret == ETOYWASMTRAP) {
                return trap_with_id(ctx, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS, "");
        }
        return ret;
}

int
ref_host_func_mul_size__0(uint32_t a, uint32_t b, uint32_t *out)
{
        uint64_t r = (uint64_t)a * b;
        if (r > UINT32_MAX) {
                return EOVERFLOW;
        }
        *out = (uint32_t)r;
        return 0;
}

int
ref_schedule_call_from_hostfunc__0(struct exec_context *ctx,
                                   struct restart_info *restart,
                                   const struct funcinst *func)
{
        struct restart_hostfunc *hf = &restart->restart_u.hostfunc;
        const struct functype *ft;
        restart->restart_type = RESTART_HOSTFUNC;
        ft = funcinst_functype(func);
        hf->func = ctx->event_u.call.func;
        hf->saved_bottom = ctx->bottom;
        ctx->bottom = ctx->frames.lsize;
        hf->stack_adj = resulttype_cellsize(&ft->result);
        ctx->restarts.lsize++;
        ctx->event_u.call.func = func;
        ctx->event = EXEC_EVENT_CALL;
        return ETOYWASMRESTART;
}

/* -- conventions of C programs */
int
ref_cconv_deref_func_ptr__0(struct exec_context *ctx,
                            const struct tableinst *t, uint32_t idx,
                            const struct functype *ft,
                            const struct funcinst **out)
{
        const struct funcinst *fi;
        int ret;
        if (t == NULL) {
                return trap_with_id(
                        ctx, TRAP_INDIRECT_FUNCTION_TABLE_NOT_FOUND, "");
        }
        TRY(table_get_func(ctx, t, idx, ft, &fi));
        *out = fi;
        return 0;
fail:
        return ret;
}

struct meminst *
ref_cconv_memory__0(const struct instance *inst)
{
        static const struct name name = NAME_FROM_CSTR_LITERAL("memory");
        uint32_t idx;
        if (module_find_export(inst->module, &name, EXTERNTYPE_MEMORY,
                               &idx) != 0) {
                return NULL;
        }
        return inst->mems.p[idx];
}

struct tableinst *
ref_cconv_func_table__0(const struct instance *inst)
{
        static const struct name name =
                NAME_FROM_CSTR_LITERAL("__indirect_function_table");
        uint32_t idx;
        if (module_find_export(inst->module, &name, EXTERNTYPE_TABLE, &idx) !=
            0) {
                return NULL;
        }
        struct tableinst *t = inst->tables.p[idx];
        return t->type->et == TYPE_funcref ? t : NULL;
}

/* -- execution contexts */
int
ref_exec_const_expr__0(const struct expr *e, enum valtype type,
                       struct val *out, struct exec_context *ctx)
{
        static const struct localtype none;
        int ret = exec_expr(FUNCIDX_INVALID, e, &none, empty_rt,
                            valtype_cellsize(type), NULL, ctx);
        while (IS_RESTARTABLE(ret)) {
                ret = exec_expr_continue(ctx);
        }
        if (ret == 0) {
                DEFINE_RESULTTYPE(, rt, &type, 1);
                exec_pop_vals(ctx, &rt, out);
        }
        return ret;
}

void
ref_exec_context_init__0(struct exec_context *ctx, struct instance *inst,
                         struct mem_context *mctx)
{
        memset(ctx, 0, sizeof(*ctx));
        ctx->instance = inst;
        ctx->mctx = mctx;
        ctx->report = &ctx->report0;
        ctx->check_interval = 1000;
        exec_options_set_defaults(&ctx->options);
}

void
ref_exec_context_clear__0(struct exec_context *ctx)
{
        struct mem_context *mctx = exec_mctx(ctx);
        struct funcframe *fr;
        VEC_FREE(mctx, ctx->frames);
        VEC_FREE(mctx, ctx->stack);
        VEC_FREE(mctx, ctx->labels);
#if defined(TOYWASM_USE_SEPARATE_LOCALS)
        VEC_FREE(mctx, ctx->locals);
#endif
        VEC_FREE(mctx, ctx->restarts);
        report_clear(&ctx->report0);
        ctx->report = NULL;
}

/* -- objects that satisfy what a module imports */
void
ref_dtor_memories__0(struct mem_context *mctx, struct import_object *im)
{
        uint32_t i;
        for (i = 0; i < im->nentries; i++) {
                struct meminst *mi = im->entries[i].u.mem;
                if (mi != NULL) {
                        memory_instance_destroy(mi->mctx, mi);
                }
        }
}

/* a new memory for each shared memory that is imported */
int
ref_create_satisfying_shared_memories__0(struct mem_context *mctx,
                                         struct mem_context *instance_mctx,
                                         const struct module *m,
                                         struct import_object **out)
{
        struct import_object *im = NULL;
        struct meminst *mi = NULL;
        uint32_t n = 0;
        uint32_t at = 0;
        uint32_t i;
        int ret;
        for (i = 0; i < m->nimports; i++) {
                const struct importdesc *d = &m->imports[i].desc;
                if (d->type == EXTERNTYPE_MEMORY &&
                    (d->u.memtype.flags & MEMTYPE_FLAG_SHARED) != 0) {
                        n++;
                }
        }
        TRY(import_object_alloc(mctx, n, &im));
        im->dtor = _dtor;
        for (i = 0; i < m->nimports; i++) {
                const struct import *x = &m->imports[i];
                if (x->desc.type != EXTERNTYPE_MEMORY ||
                    (x->desc.u.memtype.flags & MEMTYPE_FLAG_SHARED) == 0) {
                        continue;
                }
                TRY(memory_instance_create(instance_mctx, &mi,
                                           &x->desc.u.memtype));
                struct import_object_entry *e = &im->entries[at++];
                e->module_name = &x->module_name;
                e->name = &x->name;
                e->type = EXTERNTYPE_MEMORY;
                e->u.mem = mi;
                mi = NULL;
        }
        *out = im;
        return 0;
fail:
        if (im != NULL) {
                import_object_destroy(mctx, im);
        }
        if (mi != NULL) {
                memory_instance_destroy(instance_mctx, mi);
        }
        return ret;
}

/* traps when called */
int
ref_dummy_func__0(struct exec_context *ctx, struct host_instance *hi,
                  const struct functype *ft, const struct cell *params,
                  struct cell *results)
{
        const struct import *im = (const void *)hi;
        struct escaped_string module;
        struct escaped_string name;
        escape_name(&module, &im->module_name);
        escape_name(&name, &im->name);
        int ret = trap_with_id(
                ctx, TRAP_UNRESOLVED_IMPORTED_FUNC,
                "unresolved imported function %.*s:%.*s is called",
                ECSTR(&module), ECSTR(&name));
        escaped_string_clear(&module);
        escaped_string_clear(&name);
        return ret;
}

void
ref_dtor_dummies__0(struct mem_context *mctx, struct import_object *im)
{
        struct funcinst *fis = im->dtor_arg;
        if (fis != NULL) {
                mem_free(mctx, fis, im->nentries * sizeof(*fis));
        }
}

/* a function that traps for each one that is imported */
int
ref_create_satisfying_functions__0(struct mem_context *mctx,
                                   const struct module *m,
                                   struct import_object **out)
{
        struct import_object *im = NULL;
        struct funcinst *fis;
        uint32_t n = 0;
        uint32_t at = 0;
        uint32_t i;
        int ret;
        for (i = 0; i < m->nimports; i++) {
                if (m->imports[i].desc.type == EXTERNTYPE_FUNC) {
                        n++;
                }
        }
        TRY(import_object_alloc(mctx, n, &im));
        fis = mem_zalloc(mctx, n * sizeof(*fis));
        if (fis == NULL) {
                ret = ENOMEM;
                goto fail;
        }
        im->dtor = _dtor;
        im->dtor_arg = fis;
        for (i = 0; i < m->nimports; i++) {
                const struct import *x = &m->imports[i];
                if (x->desc.type != EXTERNTYPE_FUNC) {
                        continue;
                }
                const struct functype *ft = &m->types[x->desc.u.typeidx];
                struct funcinst *fi = &fis[at];
                fi->is_host = true;
                fi->u.host.func = dummy_func;
                fi->u.host.type = ft;
                fi->u.host.instance = (void *)x;
                struct import_object_entry *e = &im->entries[at++];
                e->module_name = &x->module_name;
                e->name = &x->name;
                e->type = EXTERNTYPE_FUNC;
                e->u.func = fi;
        }
        *out = im;
        return 0;
fail:
        if (im != NULL) {
                import_object_destroy(mctx, im);
        }
        return ret;
}
