/*
 * The dynamic linker: which imports it provides, the ranges of memory and
 * table it gives to objects, how symbols are bound, the order of
 * initialisation, and loading at run time.
 */
#include <errno.h>
#include <limits.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "cconv.h"
#include "cell.h"
#include "dyld.h"
#include "dyld_impl.h"
#include "dyld_plt.h"
#include "dylink_type.h"
#include "endian.h"
#include "exec.h"
#include "fileio.h"
#include "instance.h"
#include "load_context.h"
#include "mem.h"
#include "module.h"
#include "slist.h"
#include "type.h"
#include "util.h"

#define NAME(s) {.nbytes = sizeof(s) - 1, .data = s}

static const struct name n_got_mem = NAME("GOT.mem");
static const struct name n_got_func = NAME("GOT.func");
static const struct name n_env = NAME("env");
static const struct name n_table_base = NAME("__table_base");
static const struct name n_memory_base = NAME("__memory_base");
static const struct name n_table = NAME("__indirect_function_table");
static const struct name n_memory = NAME("memory");
static const struct name n_stack_pointer = NAME("__stack_pointer");
static const struct name n_main = NAME("<main>");
static const struct name n_c_longjmp = NAME("__c_longjmp");
static const struct name n_cpp_exception = NAME("__cpp_exception");
static const struct name n_reloc[] = {NAME("__wasm_apply_data_relocs")};
static const struct name n_ctor[] = {NAME("_initialize"),
                                     NAME("__wasm_call_ctors")};
static const struct globaltype i32_var = {.t = TYPE_i32, .mut = GLOBAL_VAR};
static const struct globaltype i32_const = {.t = TYPE_i32,
                                            .mut = GLOBAL_CONST};
static const struct val null_func = {.u.funcref.func = NULL};

struct layout_global {
        struct name name;
};
extern struct layout_global layout_globals[4];
enum { HEAP_BASE, HEAP_END, STACK_LOW, STACK_HIGH };

struct tsort_list {
        struct dyld_object *sh_first;
        struct dyld_object **sh_tailnextp;
};

int dyld_load_object_from_file(struct dyld *, const struct name *,
                               const char *, struct dyld_object **);
int dyld_create_shared_resources(struct dyld *, const struct memtype *);
int dyld_create_shared_import_objects(struct dyld *);
int dyld_adopt_shared_resources(struct dyld *, const struct dyld_object *);
struct dyld_object *dyld_find_object_by_name(struct dyld *,
                                             const struct name *);
bool is_GOT_mem_import(const struct module *, const struct import *);
bool is_GOT_func_import(const struct module *, const struct import *);
bool is_binding_weak(const struct module *, const struct name *);
int dyld_create_got(struct dyld *, struct dyld_object *);
const struct memtype *import_memory_type(const struct module *);
int dyld_allocate_memory(struct dyld *, uint32_t, uint32_t, uint32_t *);
int dyld_allocate_table(struct dyld *, uint32_t, uint32_t, uint32_t *);
int dyld_allocate_stack(struct dyld *, uint32_t);
int dyld_allocate_heap(struct dyld *);
int dyld_allocate_table_for_obj_exports(struct dyld *, struct dyld_object *);
void dyld_object_destroy(struct dyld_object *);
int dyld_execute_obj_init_func1(struct dyld_object *, const struct name *);
int dyld_execute_obj_init_func(struct dyld_object *, const struct name *,
                               size_t);
void tsort_visit(struct dyld_object *, struct tsort_list *);
int find_global(const struct dyld_object *, const struct name *,
                const struct globaltype *, struct globalinst **);
uint32_t dyld_register_funcinst(struct dyld *, struct dyld_object *,
                                const struct funcinst *);
int dyld_resolve_got_symbols(struct dyld_object *);
int dyld_resolve_plt_symbols(struct dyld_object *);
int dyld_load_needed_objects(struct dyld *, struct dyld_object *);
int dyld_dynamic_load_object_by_name(struct dyld *, const struct name *, bool,
                                     struct dyld_object **);
HOST_FUNC_DECL(dyld_dlfcn_load_object);
HOST_FUNC_DECL(dyld_dlfcn_resolve_symbol);

static uint32_t
get_i32(struct globalinst *g)
{
        struct val v;
        global_get(g, &v);
        return v.u.i32;
}

static void
set_i32(struct globalinst *g, uint32_t x)
{
        struct val v;
        v.u.i32 = x;
        global_set(g, &v);
}

/* -- what the linker provides */
static bool
var_import(const struct import *im, const struct name *module)
{
        return im->desc.type == EXTERNTYPE_GLOBAL &&
               im->desc.u.globaltype.mut == GLOBAL_VAR &&
               im->desc.u.globaltype.t == TYPE_i32 &&
               !compare_name(module, &im->module_name);
}

/* GOT.mem except the globals that describe the layout */
bool
ref_is_GOT_mem_import__0(const struct module *m, const struct import *im)
{
        if (!var_import(im, &n_got_mem)) {
                return false;
        }
        uint32_t i;
        for (i = 0; i < 4; i++) {
                if (!compare_name(&im->name, &layout_globals[i].name)) {
                        return false;
                }
        }
        return true;
}

bool
ref_is_GOT_func_import__0(const struct module *m, const struct import *im)
{
        return var_import(im, &n_got_func);
}

static bool
is_env_func(const struct import *im)
{
        return im->desc.type == EXTERNTYPE_FUNC &&
               !compare_name(&n_env, &im->module_name);
}

bool
ref_is_binding_weak__0(const struct module *m, const struct name *sym)
{
        uint32_t i;
        for (i = 0; i < m->dylink->nimport_info; i++) {
                const struct dylink_import_info *x =
                        &m->dylink->import_info[i];
                if (!compare_name(&x->module_name, &n_env) &&
                    !compare_name(&x->name, sym)) {
                        return (x->flags & 1) != 0;
                }
        }
        return false;
}

void
ref_dyld_init__0(struct dyld *d, struct mem_context *mctx)
{
        memset(d, 0, sizeof(*d));
        SLIST_HEAD_INIT(&d->objs);
        d->table_base = 0;
        d->memory_base = 0;
        dyld_options_set_defaults(&d->opts);
        d->mctx = mctx;
}

/* -- objects */
struct dyld_object *
ref_dyld_find_object_by_name__0(struct dyld *d, const struct name *name)
{
        struct dyld_object *o;
        SLIST_FOREACH(o, &d->objs, q) {
                if (o == SLIST_FIRST(&o->dyld->objs) || o->failed) {
                        continue;
                }
                if (!compare_name(o->name, name)) {
                        return o;
                }
        }
        return NULL;
}

/* a name is a single component, searched for in each directory in turn */
int
ref_dyld_search_and_load_object_from_file__0(struct dyld *d,
                                             const struct name *name,
                                             struct dyld_object **objp)
{
        if (memchr(name->data, 0, name->nbytes) != NULL ||
            xstrnstr(name->data, "/", name->nbytes) != NULL ||
            xstrnstr(name->data, "..", name->nbytes) != NULL) {
                return EPERM;
        }
        unsigned int i;
        for (i = 0; i < d->opts.npaths; i++) {
                char path[PATH_MAX];
                int ret = snprintf(path, sizeof(path), "%s/%.*s",
                                   d->opts.paths[i], (int)name->nbytes,
                                   name->data);
                if (ret == -1) {
                        return errno;
                }
                if (ret >= (unsigned)PATH_MAX) {
                        return ENAMETOOLONG;
                }
                ret = dyld_load_object_from_file(d, name, path, objp);
                if (ret != ENOENT) {
                        return ret;
                }
        }
        return ENOENT;
}

/* loading appends to the list being walked */
int
ref_dyld_load_needed_objects__0(struct dyld *d, struct dyld_object *start)
{
        int ret = 0;
        struct dyld_object *o;
        for (o = start; o != NULL; o = SLIST_NEXT(o, q)) {
                const struct dylink_needs *needs = &o->module->dylink->needs;
                uint32_t i;
                for (i = 0; i < needs->count; i++) {
                        const struct name *name = &needs->names[i];
                        if (dyld_find_object_by_name(d, name) != NULL) {
                                continue;
                        }
                        ret = dyld_search_and_load_object_from_file(d, name,
                                                                    NULL);
                        if (ret != 0) {
                                return ret;
                        }
                }
        }
        return ret;
}

static void
entry(struct import_object_entry *e, const struct name *module,
      const struct name *name, enum externtype type)
{
        e->module_name = module;
        e->name = name;
        e->type = type;
}

/* a GOT slot for each GOT import, a PLT entry for each env function */
int
ref_dyld_create_got__0(struct dyld *d, struct dyld_object *o)
{
        const struct module *m = o->module;
        uint32_t ngots = 0;
        uint32_t nplts = 0;
        uint32_t i;
        for (i = 0; i < m->nimports; i++) {
                const struct import *im = &m->imports[i];
                if (is_GOT_mem_import(m, im)) {
                        ngots++;
                }
                if (is_GOT_func_import(m, im)) {
                        ngots++;
                }
                if (is_env_func(im)) {
                        nplts++;
                }
        }
        o->nplts = nplts;
        o->ngots = ngots;
        uint32_t n = 2 + ngots + nplts;
        int ret = import_object_alloc(d->mctx, n, &o->local_import_obj);
        if (ret != 0) {
                return ret;
        }
        struct mem_context *mctx = d->mctx;
        if (nplts > 0) {
                o->plts = mem_calloc(mctx, nplts, sizeof(*o->plts));
                if (o->plts == NULL) {
                        return ENOMEM;
                }
        }
        if (ngots > 0) {
                o->gots = mem_calloc(mctx, ngots, sizeof(*o->gots));
                if (o->gots == NULL) {
                        return ENOMEM;
                }
        }
        struct import_object_entry *e = o->local_import_obj->entries;
        o->memory_base_global.type = &i32_const;
        entry(e, &n_env, &n_memory_base, EXTERNTYPE_GLOBAL);
        e->u.global = &o->memory_base_global;
        e++;
        o->table_base_global.type = &i32_const;
        entry(e, &n_env, &n_table_base, EXTERNTYPE_GLOBAL);
        e->u.global = &o->table_base_global;
        e++;
        struct globalinst *got = o->gots;
        struct dyld_plt *plt = o->plts;
        for (i = 0; i < m->nimports; i++) {
                const struct import *im = &m->imports[i];
                if (is_GOT_mem_import(m, im) || is_GOT_func_import(m, im)) {
                        got->type = &i32_var;
                        entry(e, &im->module_name, &im->name,
                              EXTERNTYPE_GLOBAL);
                        e->u.global = got;
                        got++;
                        e++;
                }
                if (is_env_func(im)) {
                        plt->sym = &im->name;
                        plt->refobj = o;
                        plt->pltfi.is_host = true;
                        plt->pltfi.u.host.instance = (void *)plt;
                        plt->pltfi.u.host.type =
                                &m->types[im->desc.u.typeidx];
                        plt->pltfi.u.host.func = dyld_plt;
                        entry(e, &im->module_name, &im->name,
                              EXTERNTYPE_FUNC);
                        e->u.func = &plt->pltfi;
                        plt++;
                        e++;
                }
        }
        return 0;
}

const struct memtype *
ref_import_memory_type__0(const struct module *m)
{
        uint32_t i;
        for (i = 0; i < m->nimports; i++) {
                const struct import *im = &m->imports[i];
                if (im->desc.type == EXTERNTYPE_MEMORY &&
                    !compare_name(&im->module_name, &n_env) &&
                    !compare_name(&im->name, &n_memory)) {
                        return &im->desc.u.memtype;
                }
        }
        return NULL;
}

/* -- ranges */
static uint64_t
up(uint64_t x, uint32_t shift)
{
        uint64_t mask = (UINT64_C(1) << shift) - 1;
        return (x + mask) & ~mask;
}

static uint32_t
pages(uint32_t n, uint32_t size)
{
        return ((uint64_t)n + size - 1) / size;
}

/* after everything that is in use, aligned, grown to include it */
int
ref_dyld_allocate_memory__0(struct dyld *d, uint32_t align, uint32_t size,
                            uint32_t *resultp)
{
        if (align >= 32) {
                return EINVAL;
        }
        const uint32_t page = UINT32_C(1)
                              << memtype_page_shift(d->meminst->type);
        uint64_t from = d->memory_base;
        uint32_t have = pages(from, page);
        uint32_t now = memory_grow(d->meminst, 0);
        if (now != have) {
                have = now;
                from = (uint64_t)now * page;
        }
        uint64_t start = up(from, align);
        uint64_t end = start + size;
        if (end > UINT32_MAX) {
                return ENOMEM;
        }
        uint32_t want = pages(end, page);
        if (want > have &&
            memory_grow(d->meminst, want - have) == UINT32_MAX) {
                return ENOMEM;
        }
        d->memory_base = end;
        *resultp = start;
        return 0;
}

int
ref_dyld_allocate_table__0(struct dyld *d, uint32_t align, uint32_t size,
                           uint32_t *resultp)
{
        if (align >= 32) {
                return EINVAL;
        }
        uint32_t from = d->tableinst->size;
        uint64_t start = up(from, align);
        uint64_t end = start + size;
        if (end > UINT32_MAX) {
                return ENOMEM;
        }
        if (end > from &&
            table_grow(d->tableinst, &null_func, end - from) == UINT32_MAX) {
                return ENOMEM;
        }
        d->table_base = end;
        *resultp = start;
        return 0;
}

/* the end of the stack is aligned to 16 bytes */
int
ref_dyld_allocate_stack__0(struct dyld *d, uint32_t size)
{
        uint32_t low;
        uint32_t high;
        int ret = dyld_allocate_memory(d, 0, size, &low);
        if (ret != 0) {
                return ret;
        }
        ret = dyld_allocate_memory(d, 4, 0, &high);
        if (ret != 0) {
                return ret;
        }
        set_i32(&d->layout_globals[STACK_LOW], low);
        set_i32(&d->layout_globals[STACK_HIGH], high);
        set_i32(d->stack_pointer, high);
        return 0;
}

/* up to the end of the page */
int
ref_dyld_allocate_heap__0(struct dyld *d)
{
        uint32_t base;
        uint32_t end;
        int ret = dyld_allocate_memory(d, 0, 0, &base);
        if (ret != 0) {
                return ret;
        }
        ret = dyld_allocate_memory(d, memtype_page_shift(d->meminst->type), 0,
                                   &end);
        if (ret != 0) {
                return ret;
        }
        set_i32(&d->layout_globals[HEAP_BASE], base);
        set_i32(&d->layout_globals[HEAP_END], end);
        return 0;
}

/* a slot for each exported function */
int
ref_dyld_allocate_table_for_obj_exports__0(struct dyld *d,
                                           struct dyld_object *o)
{
        const struct module *m = o->module;
        uint32_t n = 0;
        uint32_t i;
        for (i = 0; i < m->nexports; i++) {
                if (m->exports[i].desc.type == EXTERNTYPE_FUNC) {
                        n++;
                }
        }
        int ret = dyld_allocate_table(d, 0, n, &o->table_export_base);
        if (ret != 0) {
                return ret;
        }
        o->nexports = n;
        return 0;
}

void
ref_dyld_object_destroy__0(struct dyld_object *o)
{
        struct mem_context *mctx = o->dyld->mctx;
        if (o->local_import_obj != NULL) {
                import_object_destroy(mctx, o->local_import_obj);
        }
        mem_free(mctx, o->gots, o->ngots * sizeof(*o->gots));
        mem_free(mctx, o->plts, o->nplts * sizeof(*o->plts));
        if (o->instance != NULL) {
                instance_destroy(o->instance);
        }
        if (o->module != NULL) {
                module_destroy(&o->module_mctx, o->module);
        }
        if (o->bin != NULL) {
                unmap_file((void *)o->bin, o->binsz);
        }
        mem_context_clear(&o->module_mctx);
        mem_context_clear(&o->instance_mctx);
        mem_free(mctx, o, sizeof(*o));
}

/* -- initialisation */
int
ref_dyld_execute_obj_init_func1__0(struct dyld_object *o,
                                   const struct name *name)
{
        struct module *m = o->module;
        uint32_t idx;
        int ret = module_find_export(m, name, EXTERNTYPE_FUNC, &idx);
        if (ret != 0) {
                return ret;
        }
        const struct functype *ft = module_functype(m, idx);
        if (ft->parameter.ntypes != 0 || ft->result.ntypes != 0) {
                return EINVAL;
        }
        struct exec_context ctx;
        exec_context_init(&ctx, o->instance, o->dyld->mctx);
        ret = instance_execute_func(&ctx, idx, &ft->parameter, &ft->result);
        ret = instance_execute_handle_restart(&ctx, ret);
        exec_context_clear(&ctx);
        return ret;
}

/* the first one that exists */
int
ref_dyld_execute_obj_init_func__0(struct dyld_object *o,
                                  const struct name *names, size_t n)
{
        unsigned int i;
        for (i = 0; i < n; i++) {
                int ret = dyld_execute_obj_init_func1(o, &names[i]);
                if (ret != ENOENT) {
                        return ret;
                }
        }
        return 0;
}

/* what an object needs comes before it */
void
ref_tsort_visit__0(struct dyld_object *o, struct tsort_list *list)
{
        if (o->visited) {
                return;
        }
        o->visited = true;
        struct dyld *d = o->dyld;
        const struct dylink_needs *needs = &o->module->dylink->needs;
        uint32_t i;
        for (i = 0; i < needs->count; i++) {
                tsort_visit(dyld_find_object_by_name(d, &needs->names[i]),
                            list);
        }
        SLIST_INSERT_TAIL(list, o, tq);
}

/* all relocations before any constructor */
static int
all_init(struct dyld *d, struct dyld_object *start)
{
        struct tsort_list list;
        SLIST_HEAD_INIT(&list);
        struct dyld_object *o;
        for (o = start; o != NULL; o = SLIST_NEXT(o, q)) {
                tsort_visit(o, &list);
        }
        SLIST_FOREACH(o, &list, tq) {
                int ret = dyld_execute_obj_init_func(o, n_reloc, 1);
                if (ret != 0) {
                        return ret;
                }
        }
        SLIST_FOREACH(o, &list, tq) {
                int ret = dyld_execute_obj_init_func(o, n_ctor, 2);
                if (ret != 0) {
                        return ret;
                }
        }
        return 0;
}

int
ref_dyld_execute_all_init_funcs__0(struct dyld *d, struct dyld_object *start)
{
        return all_init(d, start);
}

/* looks at the objects first */
int
ref_dyld_execute_all_init_funcs__1(struct dyld *d, struct dyld_object *start)
{
        struct dyld_object *o;
        for (o = start; o != NULL; o = SLIST_NEXT(o, q)) {
        }
        return all_init(d, start);
}

/* -- loading */
int
ref_dyld_load_object_from_file__0(struct dyld *d, const struct name *name,
                                  const char *filename,
                                  struct dyld_object **objp)
{
        int ret;
        struct dyld_object *o = mem_zalloc(d->mctx, sizeof(*o));
        if (o == NULL) {
                return ENOMEM;
        }
        mem_context_init(&o->module_mctx);
        o->module_mctx.parent = d->mctx;
        mem_context_init(&o->instance_mctx);
        o->instance_mctx.parent = d->mctx;
        o->dyld = d;
        o->name = name;
        ret = map_file(filename, (void *)&o->bin, &o->binsz);
        if (ret != 0) {
                goto fail;
        }
        struct load_context lctx;
        load_context_init(&lctx, &o->module_mctx);
        ret = module_create(&o->module, o->bin, o->bin + o->binsz, &lctx);
        load_context_clear(&lctx);
        if (ret != 0) {
                goto fail;
        }
        if (o->module->dylink == NULL) {
                ret = EINVAL;
                goto fail;
        }
        /*
         * the main object either imports the shared resources or, when it
         * does not import a memory, provides them
         */
        bool imports = true;
        if (SLIST_EMPTY(&d->objs)) {
                const struct memtype *mt = import_memory_type(o->module);
                imports = mt != NULL;
                d->pie = imports;
                if (imports) {
                        ret = dyld_create_shared_resources(d, mt);
                        if (ret != 0) {
                                goto fail;
                        }
                        ret = dyld_create_shared_import_objects(d);
                        if (ret != 0) {
                                goto fail;
                        }
                }
        }
        ret = dyld_create_got(d, o);
        if (ret != 0) {
                goto fail;
        }
        if (imports) {
                const struct dylink_mem_info *mi =
                        &o->module->dylink->mem_info;
                ret = dyld_allocate_memory(d, mi->memoryalignment,
                                           mi->memorysize, &o->memory_base);
                if (ret != 0) {
                        goto fail;
                }
                mi = &o->module->dylink->mem_info;
                ret = dyld_allocate_table(d, mi->tablealignment,
                                          mi->tablesize, &o->table_base);
                if (ret != 0) {
                        goto fail;
                }
        }
        set_i32(&o->memory_base_global, o->memory_base);
        set_i32(&o->table_base_global, o->table_base);
        o->local_import_obj->next = d->shared_import_obj;
        struct report report;
        report_init(&report);
        ret = instance_create(&o->instance_mctx, o->module, &o->instance,
                              o->local_import_obj, &report);
        report_clear(&report);
        if (ret != 0) {
                goto fail;
        }
        if (!imports) {
                ret = dyld_adopt_shared_resources(d, o);
                if (ret != 0) {
                        goto fail;
                }
                ret = dyld_create_shared_import_objects(d);
                if (ret != 0) {
                        goto fail;
                }
        }
        ret = dyld_allocate_table_for_obj_exports(d, o);
        if (ret != 0) {
                goto fail;
        }
        SLIST_INSERT_TAIL(&d->objs, o, q);
        if (objp != NULL) {
                *objp = o;
        }
        return 0;
fail:
        dyld_object_destroy(o);
        return ret;
}

/* -- what objects share */
int
ref_dyld_create_shared_resources__0(struct dyld *d, const struct memtype *imt)
{
        d->table_base = 1; /* 0 is the null pointer */
        d->u.pie.tt.et = TYPE_funcref;
        d->u.pie.tt.lim.min = 1;
        d->u.pie.tt.lim.max = UINT32_MAX;
        int ret = table_instance_create(d->mctx, &d->tableinst, &d->u.pie.tt);
        if (ret != 0) {
                return ret;
        }
        uint32_t shift = memtype_page_shift(imt);
        struct memtype *mt = &d->u.pie.mt;
        mt->lim.min = pages(d->memory_base, UINT32_C(1) << shift);
        mt->lim.max =
                shift == 0 ? UINT32_MAX : (uint32_t)(UINT64_C(1) << 32 >> shift);
        mt->flags = 0;
        mt->page_shift = (uint8_t)shift;
        ret = memory_instance_create(d->mctx, &d->meminst, mt);
        if (ret != 0) {
                return ret;
        }
        d->stack_pointer = &d->u.pie.stack_pointer;
        d->stack_pointer->type = &i32_var;
        return 0;
}

int
ref_dyld_create_shared_import_objects__0(struct dyld *d)
{
        uint32_t i;
        for (i = 0; i < 4; i++) {
                d->layout_globals[i].type = &i32_var;
        }
        int ret = functype_from_string(d->mctx, "(i)", &d->c_longjmp_ft);
        if (ret != 0) {
                return ret;
        }
        d->c_longjmp.type = d->c_longjmp_ft;
        d->cpp_exception.type = d->c_longjmp_ft;
        struct import_object *imp;
        ret = import_object_alloc(d->mctx, 9, &imp);
        if (ret != 0) {
                return ret;
        }
        struct import_object_entry *e = imp->entries;
        entry(e, &n_env, &n_memory, EXTERNTYPE_MEMORY);
        e->u.mem = d->meminst;
        e++;
        entry(e, &n_env, &n_table, EXTERNTYPE_TABLE);
        e->u.table = d->tableinst;
        e++;
        entry(e, &n_env, &n_stack_pointer, EXTERNTYPE_GLOBAL);
        e->u.global = d->stack_pointer;
        e++;
        for (i = 0; i < 4; i++) {
                entry(e, &n_got_mem, &layout_globals[i].name,
                      EXTERNTYPE_GLOBAL);
                e->u.global = &d->layout_globals[i];
                e++;
        }
        entry(e, &n_env, &n_c_longjmp, EXTERNTYPE_TAG);
        e->u.tag = &d->c_longjmp;
        e++;
        entry(e, &n_env, &n_cpp_exception, EXTERNTYPE_TAG);
        e->u.tag = &d->cpp_exception;
        e++;
        imp->next = d->shared_import_obj;
        d->shared_import_obj = imp;
        if (d->opts.enable_dlfcn) {
                ret = import_object_create_for_dyld(d->mctx, d, &imp);
                if (ret != 0) {
                        return ret;
                }
                imp->next = d->shared_import_obj;
                d->shared_import_obj = imp;
        }
        return 0;
}

int
ref_find_global__0(const struct dyld_object *o, const struct name *name,
                   const struct globaltype *type, struct globalinst **gp)
{
        const struct instance *inst = o->instance;
        uint32_t idx;
        int ret = module_find_export(o->module, name, EXTERNTYPE_GLOBAL, &idx);
        if (ret != 0) {
                return ret;
        }
        struct globalinst *g = VEC_ELEM(inst->globals, idx);
        if (g->type->mut != type->mut || g->type->t != type->t) {
                return EINVAL;
        }
        *gp = g;
        return 0;
}

int
ref_dyld_adopt_shared_resources__0(struct dyld *d, const struct dyld_object *o)
{
        const struct module *m = o->module;
        const struct instance *inst = o->instance;
        uint32_t memidx;
        int ret = module_find_export(m, &n_memory, EXTERNTYPE_MEMORY, &memidx);
        if (ret != 0) {
                return ret;
        }
        d->meminst = VEC_ELEM(inst->mems, memidx);
        d->memory_base = d->meminst->type->lim.min
                         << memtype_page_shift(d->meminst->type);
        uint32_t tableidx;
        ret = module_find_export(m, &n_table, EXTERNTYPE_TABLE, &tableidx);
        if (ret != 0) {
                return ret;
        }
        d->tableinst = VEC_ELEM(inst->tables, tableidx);
        if (d->tableinst->type->et != TYPE_funcref) {
                return EINVAL;
        }
        d->table_base = d->tableinst->type->lim.min;
        ret = find_global(o, &n_stack_pointer, &i32_var, &d->stack_pointer);
        if (ret != 0) {
                return ret;
        }
        uint32_t i;
        for (i = 0; i < 4; i++) {
                ret = find_global(o, &layout_globals[i].name, &i32_const,
                                  &d->u.nonpie.layout_globals[i]);
                if (ret != 0) {
                        return ret;
                }
        }
        return 0;
}

/* -- symbols */
/* the slot the function has, else the first free one of its object */
uint32_t
ref_dyld_register_funcinst__0(struct dyld *d, struct dyld_object *o,
                              const struct funcinst *fi)
{
        struct tableinst *t = d->tableinst;
        uint32_t end = o->table_export_base + o->nexports;
        uint32_t i;
        for (i = o->table_export_base; i < end; i++) {
                struct val v;
                table_get(t, i, &v);
                if (v.u.funcref.func == fi) {
                        return i;
                }
                if (v.u.funcref.func == NULL) {
                        v.u.funcref.func = fi;
                        table_set(t, i, &v);
                        return i;
                }
        }
        return 0;
}

/* a function is never null */
uint32_t
ref_dyld_register_funcinst__1(struct dyld *d, struct dyld_object *o,
                              const struct funcinst *fi)
{
        struct tableinst *t = d->tableinst;
        uint32_t end = o->table_export_base + o->nexports;
        uint32_t i;
        for (i = o->table_export_base; i < end; i++) {
                struct val v;
                table_get(t, i, &v);
                if (v.u.funcref.func == NULL) {
                        v.u.funcref.func = fi;
                        table_set(t, i, &v);
                        return i;
                }
                if (v.u.funcref.func == fi) {
                        return i;
                }
        }
        return 0;
}

int
ref_dyld_resolve_symbol_in_obj__0(struct dyld_object *refobj,
                                  struct dyld_object *o, enum symtype symtype,
                                  const struct name *sym, uint32_t *resultp)
{
        struct dyld *d = refobj->dyld;
        bool func = symtype == SYM_TYPE_FUNC;
        uint32_t idx;
        if (module_find_export(o->module, sym,
                               func ? EXTERNTYPE_FUNC : EXTERNTYPE_GLOBAL,
                               &idx) != 0) {
                return ENOENT;
        }
        const struct instance *inst = o->instance;
        if (func) {
                *resultp = dyld_register_funcinst(d, o,
                                                  VEC_ELEM(inst->funcs, idx));
        } else {
                struct globalinst *g = VEC_ELEM(inst->globals, idx);
                if (g->type->mut != GLOBAL_CONST || g->type->t != TYPE_i32) {
                        return ENOENT;
                }
                *resultp = get_i32(g) + o->memory_base;
        }
        return 0;
}

/* the first object that has it; nothing for a weak reference */
int
ref_dyld_resolve_symbol__0(struct dyld_object *refobj, enum symtype symtype,
                           const struct name *sym, uint32_t *resultp)
{
        struct dyld_object *o;
        SLIST_FOREACH(o, &refobj->dyld->objs, q) {
                if (!o->failed &&
                    dyld_resolve_symbol_in_obj(refobj, o, symtype, sym,
                                               resultp) == 0) {
                        return 0;
                }
        }
        if (is_binding_weak(refobj->module, sym)) {
                *resultp = 0;
                return 0;
        }
        return ENOENT;
}

int
ref_dyld_resolve_got_symbols__0(struct dyld_object *refobj)
{
        const struct module *m = refobj->module;
        struct globalinst *got = refobj->gots;
        uint32_t i;
        for (i = 0; i < m->nimports; i++) {
                const struct import *im = &m->imports[i];
                enum symtype t;
                if (is_GOT_mem_import(m, im)) {
                        t = SYM_TYPE_MEM;
                } else if (is_GOT_func_import(m, im)) {
                        t = SYM_TYPE_FUNC;
                } else {
                        continue;
                }
                uint32_t addr;
                int ret = dyld_resolve_symbol(refobj, t, &im->name, &addr);
                if (ret != 0) {
                        return ret;
                }
                set_i32(got, addr);
                got++;
        }
        return 0;
}

int
ref_dyld_resolve_plt_symbols__0(struct dyld_object *refobj)
{
        struct mem_context *mctx = refobj->dyld->mctx;
        uint32_t i;
        for (i = 0; i < refobj->nplts; i++) {
                struct dyld_plt *plt = &refobj->plts[i];
                struct exec_context ctx;
                exec_context_init(&ctx, refobj->instance, mctx);
                int ret = dyld_resolve_plt(&ctx, plt);
                exec_context_clear(&ctx);
                if (ret != 0 &&
                    !is_binding_weak(refobj->module, plt->sym)) {
                        return ret;
                }
        }
        return 0;
}

/* everything is loaded before anything is bound */
int
ref_dyld_resolve_dependencies__0(struct dyld *d, struct dyld_object *start,
                                 bool bindnow)
{
        struct dyld_object *o;
        int ret = dyld_load_needed_objects(d, start);
        if (ret != 0) {
                return ret;
        }
        for (o = start; o != NULL; o = SLIST_NEXT(o, q)) {
                ret = dyld_resolve_got_symbols(o);
                if (ret != 0) {
                        return ret;
                }
        }
        if (bindnow) {
                for (o = start; o != NULL; o = SLIST_NEXT(o, q)) {
                        ret = dyld_resolve_plt_symbols(o);
                        if (ret != 0) {
                                return ret;
                        }
                }
        }
        return 0;
}

int
ref_dyld_load__0(struct dyld *d, const char *filename)
{
        struct dyld_object *o;
        d->shared_import_obj = d->opts.base_import_obj;
        int ret = dyld_load_object_from_file(d, &n_main, filename, &o);
        if (ret != 0) {
                goto fail;
        }
        ret = dyld_resolve_dependencies(d, o, d->opts.bindnow);
        if (ret != 0) {
                goto fail;
        }
        if (d->pie) {
                ret = dyld_allocate_stack(d, d->opts.stack_size);
                if (ret != 0) {
                        goto fail;
                }
                ret = dyld_allocate_heap(d);
                if (ret != 0) {
                        goto fail;
                }
                return 0;
        }
        uint32_t i;
        for (i = 0; i < 4; i++) {
                set_i32(&d->layout_globals[i],
                        get_i32(d->u.nonpie.layout_globals[i]));
        }
        return 0;
fail:
        dyld_clear(d);
        return ret;
}

int
ref_dyld_execute_init_funcs__0(struct dyld *d)
{
        return dyld_execute_all_init_funcs(d, SLIST_FIRST(&d->objs));
}

void
ref_dyld_clear__0(struct dyld *d)
{
        struct mem_context *mctx = d->mctx;
        struct dyld_object *o;
        while ((o = SLIST_FIRST(&d->objs)) != NULL) {
                SLIST_REMOVE_HEAD(&d->objs, o, q);
                dyld_object_destroy(o);
        }
        if (d->pie) {
                if (d->meminst != NULL) {
                        memory_instance_destroy(mctx, d->meminst);
                }
                if (d->tableinst != NULL) {
                        table_instance_destroy(mctx, d->tableinst);
                }
        }
        struct import_object *imp;
        while ((imp = d->shared_import_obj) != d->opts.base_import_obj) {
                d->shared_import_obj = imp->next;
                import_object_destroy(mctx, imp);
        }
        struct dyld_dynamic_object **it;
        VEC_FOREACH(it, d->dynobjs) {
                struct dyld_dynamic_object *x = *it;
                mem_free(mctx, (void *)x->name.data,
                         (size_t)x->name.nbytes + 1);
                mem_free(mctx, x, sizeof(*x));
        }
        VEC_FREE(mctx, d->dynobjs);
        if (d->c_longjmp_ft != NULL) {
                functype_free(mctx, d->c_longjmp_ft);
        }
        memset(d, 0, sizeof(*d));
}

struct instance *
ref_dyld_main_object_instance__0(struct dyld *d)
{
        return SLIST_FIRST(&d->objs)->instance;
}

struct meminst *
ref_dyld_memory__0(struct dyld *d)
{
        return d->meminst;
}

struct tableinst *
ref_dyld_func_table__0(struct dyld *d)
{
        return d->tableinst;
}

/* -- calls through the PLT */
int
ref_dyld_resolve_plt__0(struct exec_context *ctx, struct dyld_plt *plt)
{
        struct dyld *d = plt->refobj->dyld;
        uint32_t addr;
        int ret = dyld_resolve_symbol(plt->refobj, SYM_TYPE_FUNC, plt->sym,
                                      &addr);
        if (ret != 0) {
                return ret;
        }
        return table_get_func(ctx, d->tableinst, addr,
                              funcinst_functype(&plt->pltfi), &plt->finst);
}

int
ref_dyld_plt__0(struct exec_context *ctx, struct host_instance *hi,
                const struct functype *ft, const struct cell *params,
                struct cell *results)
{
        struct dyld_plt *plt = (struct dyld_plt *)hi;
        if (plt->finst == NULL) {
                int ret = dyld_resolve_plt(ctx, plt);
                if (ret != 0) {
                        return ret;
                }
        }
        ctx->event_u.call.func = plt->finst;
        ctx->event = EXEC_EVENT_CALL;
        return ETOYWASMRESTART;
}

/* -- loading at run time */
int
ref_dyld_dynamic_load_object_by_name__0(struct dyld *d,
                                        const struct name *name, bool bindnow,
                                        struct dyld_object **objp)
{
        struct dyld_object *o = NULL;
        int ret = dyld_search_and_load_object_from_file(d, name, &o);
        if (ret != 0) {
                goto fail;
        }
        ret = dyld_resolve_dependencies(d, o, bindnow);
        if (ret != 0) {
                goto fail;
        }
        ret = dyld_execute_all_init_funcs(d, o);
        if (ret != 0) {
                goto fail;
        }
        *objp = o;
        return 0;
fail:
        for (; o != NULL; o = SLIST_NEXT(o, q)) {
                o->failed = true;
        }
        return ret;
}

static void
deliver(const struct functype *ft, struct cell *results, uint32_t x)
{
        struct val v;
        v.u.i32 = x;
        uint32_t csz;
        uint32_t at = resulttype_cellidx(&ft->result, 0, &csz);
        val_to_cells(&v, &results[at], csz);
}

static int
load_object(struct exec_context *ctx, struct dyld *d, const struct val *v,
            uint32_t *errp)
{
        uint32_t len = v[1].u.i32;
        uint32_t out = v[3].u.i32;
        *errp = 1;
        if (v[2].u.i32 != 0) {
                return 0;
        }
        void *p;
        int ret = host_func_getptr(ctx, d->meminst, v[0].u.i32, len, &p);
        if (ret != 0) {
                return ret;
        }
        if (_vec_prealloc(d->mctx, &d->dynobjs, sizeof(*d->dynobjs.p), 1) !=
            0) {
                return 0;
        }
        struct dyld_dynamic_object *x = mem_zalloc(d->mctx, sizeof(*x));
        if (x == NULL) {
                return 0;
        }
        char *data = mem_alloc(d->mctx, (size_t)len + 1);
        if (data == NULL) {
                mem_free(d->mctx, x, sizeof(*x));
                return 0;
        }
        memcpy(data, p, len);
        data[len] = 0;
        x->name.data = data;
        x->name.nbytes = len;
        uint32_t idx = d->dynobjs.lsize;
        VEC_ELEM(d->dynobjs, idx) = x;
        d->dynobjs.lsize++;
        if (dyld_dynamic_load_object_by_name(d, &x->name, false, &x->obj) !=
            0) {
                return 0;
        }
        *errp = 0;
        uint32_t le = host_to_le32(idx + 1);
        return host_func_copyout(ctx, d->meminst, &le, out, 4, 4);
}

int
ref_dyld_dlfcn_load_object__0(struct exec_context *ctx,
                              struct host_instance *hi,
                              const struct functype *ft,
                              const struct cell *params, struct cell *results)
{
        struct val *v = calloc(ft->parameter.ntypes, sizeof(*v));
        if (v == NULL) {
                return ENOMEM;
        }
        vals_from_cells(v, params, &ft->parameter);
        uint32_t err;
        int ret = load_object(ctx, (struct dyld *)hi, v, &err);
        if (ret == 0) {
                deliver(ft, results, err);
        }
        free(v);
        return ret;
}

static int
resolve_symbol(struct exec_context *ctx, struct dyld *d, const struct val *v,
               uint32_t *errp)
{
        uint32_t handle = v[0].u.i32;
        uint32_t kind = v[1].u.i32;
        uint32_t len = v[3].u.i32;
        uint32_t out = v[4].u.i32;
        *errp = 1;
        if (kind != 1 && kind != 2) {
                return 0;
        }
        if (handle == 0 || handle - 1 >= d->dynobjs.lsize) {
                return 0;
        }
        const struct dyld_dynamic_object *x = VEC_ELEM(d->dynobjs, handle - 1);
        if (x->obj == NULL) {
                return 0;
        }
        void *p;
        int ret = host_func_getptr(ctx, d->meminst, v[2].u.i32, len, &p);
        if (ret != 0) {
                return ret;
        }
        struct name name;
        name.data = p;
        name.nbytes = len;
        uint32_t addr;
        if (dyld_resolve_symbol_in_obj(SLIST_FIRST(&d->objs), x->obj,
                                       kind == 1 ? SYM_TYPE_FUNC
                                                 : SYM_TYPE_MEM,
                                       &name, &addr) != 0) {
                return 0;
        }
        *errp = 0;
        uint32_t le = host_to_le32(addr);
        return host_func_copyout(ctx, d->meminst, &le, out, 4, 4);
}

int
ref_dyld_dlfcn_resolve_symbol__0(struct exec_context *ctx,
                                 struct host_instance *hi,
                                 const struct functype *ft,
                                 const struct cell *params,
                                 struct cell *results)
{
        struct val *v = calloc(ft->parameter.ntypes, sizeof(*v));
        if (v == NULL) {
                return ENOMEM;
        }
        vals_from_cells(v, params, &ft->parameter);
        uint32_t err;
        int ret = resolve_symbol(ctx, (struct dyld *)hi, v, &err);
        if (ret == 0) {
                deliver(ft, results, err);
        }
        free(v);
        return ret;
}

static const struct name n_dyld = NAME("dyld");
static const struct host_func dyld_calls[] = {
        {NAME("load_object"), "(iiii)i", dyld_dlfcn_load_object},
        {NAME("resolve_symbol"), "(iiiii)i", dyld_dlfcn_resolve_symbol},
};
static const struct host_module dyld_module[] = {
        {.module_name = &n_dyld, .funcs = dyld_calls, .nfuncs = 2},
};

int
ref_import_object_create_for_dyld__0(struct mem_context *mctx, struct dyld *d,
                                     struct import_object **impp)
{
        return import_object_create_for_host_funcs(mctx, dyld_module, 1,
                                                   (void *)d, impp);
}
