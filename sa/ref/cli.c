/* The command line tool: values given and shown, modules, calls. */
#define _GNU_SOURCE
#include <errno.h>
#include <inttypes.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cconv.h"
#include "endian.h"
#include "exec_context.h"
#include "exec_debug.h"
#include "fileio.h"
#include "instance.h"
#include "load_context.h"
#include "mem.h"
#include "module.h"
#include "module_writer.h"
#include "nbio.h"
#include "repl.h"
#include "report.h"
#include "str_to_uint.h"
#include "suspend.h"
#include "timeutil.h"
#include "type.h"
#include "usched.h"
#include "wasi.h"
#include "wasi_vfs.h"
#include "wasi_threads.h"
#include "xlog.h"

/* functions of cli/repl.c */
int str_to_ptr(const char *, int, uintmax_t *);
int read_hex_from_stdin(uint8_t *, size_t);
int parse_v128(const char *, struct val *);
int arg_conv(enum valtype, const char *, struct val *);
int repl_print_result(const struct resulttype *, const struct val *);
int unescape(char *, size_t *);
int find_mod_u(struct repl_state *, const char *,
               struct repl_module_state_u **);
int find_mod(struct repl_state *, const char *, struct repl_module_state **);
void print_trap(const struct exec_context *, const struct trap_info *);
void setup_timeout(struct exec_context *);
int check_timeout(const struct timespec *);
int repl_exec_init(struct repl_state *, struct repl_module_state *, bool);
void set_memory(struct repl_state *, struct meminst *);
int repl_load_from_buf(struct repl_state *, const char *,
                       struct repl_module_state *, bool);
void repl_unload(struct repl_state *, struct repl_module_state *);
void repl_unload_u(struct repl_state *, struct repl_module_state_u *);
int repl_save(struct repl_state *, const char *, const char *);
int exec_func(struct exec_context *, uint32_t, const struct resulttype *,
              const struct resulttype *, const struct val *, struct val *,
              const struct timespec *, const struct trap_info **);
int repl_global_get(struct repl_state *, const char *, const char *);
int toywasm_repl_load_hex(struct repl_state *, const char *, const char *);
int repl_module_subcmd(struct repl_state *, const char *, const char *,
                       const char *);

#define TRY(X)                                                                \
        do {                                                                  \
                ret = (X);                                                    \
                if (ret != 0) {                                               \
                        goto fail;                                            \
                }                                                             \
        } while (0)

/* a reference that is not null although its number is 0 */
#define ZERO ((uintptr_t)-1)

/* -- values */

/* the whole string is a number that can be represented */
int
ref_str_to_uint__0(const char *s, int base, uintmax_t *out)
{
        char *end;
        errno = 0;
        uintmax_t v = strtoumax(s, &end, base);
        if (end == s || *end != 0) {
                return EINVAL;
        }
        if (errno != 0) {
                return errno;
        }
        *out = v;
        return 0;
}

int
ref_str_to_u32__0(const char *s, int base, uint32_t *out)
{
        uintmax_t v;
        int ret = str_to_uint(s, base, &v);
        if (ret == 0) {
                if (v > UINT32_MAX) {
                        return EOVERFLOW;
                }
                *out = v;
        }
        return ret;
}

int
ref_str_to_size__0(const char *s, int base, size_t *out)
{
        uintmax_t v;
        int ret = str_to_uint(s, base, &v);
        if (ret == 0) {
                *out = v;
        }
        return ret;
}

int
ref_str_to_ptr__0(const char *s, int base, uintmax_t *out)
{
        if (strcmp(s, "null") == 0) {
                *out = 0;
                return 0;
        }
        int ret = str_to_uint(s, base, out);
        if (ret == 0 && *out == 0) {
                *out = ZERO;
        }
        return ret;
}

/* 32 hexadecimal digits, the most significant first */
int
ref_parse_v128__0(const char *s, struct val *v)
{
        uint64_t hi;
        uint64_t lo;
        if (strlen(s) != 32 ||
            sscanf(s, "%016" SCNx64 "%016" SCNx64, &hi, &lo) != 2) {
                return EINVAL;
        }
        le64_encode(&v->u.v128.i64[1], hi);
        le64_encode(&v->u.v128.i64[0], lo);
        return 0;
}

/* a number in the range of the type */
int
ref_arg_conv__0(enum valtype type, const char *s, struct val *v)
{
        uintmax_t u;
        int ret;
        memset(v, 0, sizeof(*v));
        if (type == TYPE_i32 || type == TYPE_f32) {
                ret = str_to_uint(s, 0, &u);
                if (ret == 0 && u > UINT32_MAX) {
                        return EOVERFLOW;
                }
                if (ret == 0) {
                        v->u.i32 = u;
                }
                return ret;
        }
        if (type == TYPE_i64 || type == TYPE_f64) {
                ret = str_to_uint(s, 0, &u);
                if (ret == 0) {
                        v->u.i64 = u;
                }
                return ret;
        }
        if (type == TYPE_v128) {
                return parse_v128(s, v);
        }
        if (type == TYPE_funcref) {
                ret = str_to_ptr(s, 0, &u);
                if (ret == 0) {
                        v->u.funcref.func = (void *)u;
                }
                return ret;
        }
        if (type == TYPE_externref) {
                ret = str_to_ptr(s, 0, &u);
                if (ret == 0) {
                        v->u.externref = (void *)u;
                }
                return ret;
        }
        return ENOTSUP;
}

int
ref_arg_conv__1(enum valtype type, const char *s, struct val *v)
{
        uintmax_t u;
        uint32_t u32;
        int ret;
        memset(v, 0, sizeof(*v));
        if (type == TYPE_i32 || type == TYPE_f32) {
                ret = str_to_u32(s, 0, &u32);
                if (ret == 0) {
                        v->u.i32 = u32;
                }
                return ret;
        }
        if (type == TYPE_i64 || type == TYPE_f64) {
                ret = str_to_uint(s, 0, &u);
                if (ret == 0) {
                        v->u.i64 = u;
                }
                return ret;
        }
        if (type == TYPE_v128) {
                return parse_v128(s, v);
        }
        if (type == TYPE_funcref) {
                ret = str_to_ptr(s, 0, &u);
                if (ret == 0) {
                        v->u.funcref.func = (void *)u;
                }
                return ret;
        }
        if (type == TYPE_externref) {
                ret = str_to_ptr(s, 0, &u);
                if (ret == 0) {
                        v->u.externref = (void *)u;
                }
                return ret;
        }
        return ENOTSUP;
}

int
ref_repl_print_result__0(const struct resulttype *rt, const struct val *vals)
{
        const char *sep = "";
        uint32_t i;
        int ret = 0;
        if (rt->ntypes == 0) {
                nbio_printf("Result: <Empty Stack>\n");
                return 0;
        }
        nbio_printf("Result: ");
        for (i = 0; i < rt->ntypes; i++) {
                const struct val *v = &vals[i];
                switch (rt->types[i]) {
                case TYPE_i32:
                        nbio_printf("%s%" PRIu32 ":i32", sep, v->u.i32);
                        break;
                case TYPE_i64:
                        nbio_printf("%s%" PRIu64 ":i64", sep, v->u.i64);
                        break;
                case TYPE_f32:
                        nbio_printf("%s%" PRIu32 ":f32", sep, v->u.i32);
                        break;
                case TYPE_f64:
                        nbio_printf("%s%" PRIu64 ":f64", sep, v->u.i64);
                        break;
                case TYPE_v128:
                        nbio_printf("%s%016" PRIx64 "%016" PRIx64 ":v128", sep,
                                    le64_decode(&v->u.v128.i64[1]),
                                    le64_decode(&v->u.v128.i64[0]));
                        break;
                case TYPE_funcref:
                        if (v->u.funcref.func == NULL) {
                                nbio_printf("%snull:funcref", sep);
                        } else {
                                nbio_printf("%s%" PRIuPTR ":funcref", sep,
                                            (uintptr_t)v->u.funcref.func);
                        }
                        break;
                case TYPE_externref:
                        if (v->u.externref == NULL) {
                                nbio_printf("%snull:externref", sep);
                        } else if ((uintptr_t)v->u.externref == ZERO) {
                                nbio_printf("%s0:externref", sep);
                        } else {
                                nbio_printf("%s%" PRIuPTR ":externref", sep,
                                            (uintptr_t)v->u.externref);
                        }
                        break;
                case TYPE_exnref:
                        if (v->u.exnref.tag == NULL) {
                                nbio_printf("%snull:exnref", sep);
                        } else {
                                nbio_printf("%s%" PRIuPTR ":exnref", sep,
                                            (uintptr_t)v->u.exnref.tag);
                        }
                        break;
                default:
                        ret = ENOTSUP;
                        break;
                }
                sep = ", ";
        }
        nbio_printf("\n");
        return ret;
}

/* quotes go away, \xHH becomes a byte */
int
ref_unescape__0(char *s, size_t *out)
{
        bool quoted = false;
        char *p = s;
        char *w = s;
        while (*p != 0) {
                if (*p == '"') {
                        quoted = !quoted;
                        p++;
                        continue;
                }
                if (*p == '\\') {
                        if (p[1] != 'x') {
                                return EINVAL;
                        }
                        p += 2;
                        char buf[3];
                        if ((buf[0] = *p++) == 0) {
                                return EINVAL;
                        }
                        if ((buf[1] = *p++) == 0) {
                                return EINVAL;
                        }
                        buf[2] = 0;
                        uintmax_t v;
                        int ret = str_to_uint(buf, 16, &v);
                        if (ret != 0) {
                                return ret;
                        }
                        *w++ = (char)v;
                } else {
                        *w++ = *p++;
                }
        }
        if (quoted) {
                return EINVAL;
        }
        *out = w - s;
        *w = 0;
        return 0;
}

int
ref_read_hex_from_stdin__0(uint8_t *p, size_t n)
{
        char buf[3];
        while (n > 0) {
                if (fread(buf, 2, 1, stdin) == 0) {
                        return EIO;
                }
                buf[2] = 0;
                uintmax_t v;
                int ret = str_to_uint(buf, 16, &v);
                if (ret != 0) {
                        return ret;
                }
                *p++ = v;
                n--;
        }
        if (fread(buf, 1, 1, stdin) == 0) {
                return EIO;
        }
        return buf[0] == '\n' ? 0 : EPROTO;
}

/* -- modules */

/* the last one, or the first of that name */
int
ref_find_mod_u__0(struct repl_state *st, const char *name,
                  struct repl_module_state_u **out)
{
        if (st->modules.lsize == 0) {
                return EPROTO;
        }
        if (name == NULL) {
                *out = &st->modules.p[st->modules.lsize - 1];
                return 0;
        }
        if (st->opts.enable_dyld) {
                return ENOTSUP;
        }
        uint32_t i;
        for (i = 0; i < st->modules.lsize; i++) {
                struct repl_module_state_u *m = &st->modules.p[i];
                if (m->u.repl.name != NULL &&
                    strcmp(name, m->u.repl.name) == 0) {
                        *out = m;
                        return 0;
                }
        }
        return ENOENT;
}

int
ref_find_mod__0(struct repl_state *st, const char *name,
                struct repl_module_state **out)
{
        if (st->opts.enable_dyld) {
                return ENOTSUP;
        }
        struct repl_module_state_u *m;
        int ret = find_mod_u(st, name, &m);
        if (ret == 0) {
                *out = &m->u.repl;
        }
        return ret;
}

void
ref_set_memory__0(struct repl_state *st, struct meminst *mem)
{
        if (st->wasi != NULL) {
                wasi_instance_set_memory(st->wasi, mem);
        }
        if (st->wasi_threads != NULL) {
                wasi_threads_instance_set_memory(st->wasi_threads, mem);
        }
}

int
ref_repl_load_from_buf__0(struct repl_state *st, const char *name,
                          struct repl_module_state *m, bool trap_ok)
{
        int ret;
        if (st->opts.enable_dyld) {
                return ENOTSUP;
        }
        struct mem_context *two = mem_alloc(st->mctx, 2 * sizeof(*two));
        if (two == NULL) {
                return ENOMEM;
        }
        m->module_mctx = two;
        m->instance_mctx = two + 1;
        mem_context_init(m->module_mctx);
        mem_context_init(m->instance_mctx);
        m->module_mctx->parent = st->modules_mctx;
        m->instance_mctx->parent = st->instances_mctx;
        struct load_context ctx;
        load_context_init(&ctx, m->module_mctx);
        ctx.options = st->opts.load_options;
        ret = module_create(&m->module, m->buf, m->buf + m->bufsize, &ctx);
        if (ret != 0) {
                report_getmessage(&ctx.report);
        }
        load_context_clear(&ctx);
        if (ret != 0) {
                return ret;
        }
        struct import_object *list = st->imports;
        if (st->wasi_threads != NULL) {
                struct import_object *im;
                ret = create_satisfying_shared_memories(
                        st->impobj_mctx, m->instance_mctx, m->module, &im);
                if (ret != 0) {
                        return ret;
                }
                m->extra_import = im;
                im->next = list;
                list = im;
        }
        /* what nothing else provides */
        struct import_object **tail = NULL;
        if (st->opts.allow_unresolved_functions) {
                struct import_object *im;
                ret = create_satisfying_functions(st->impobj_mctx, m->module,
                                                  &im);
                if (ret != 0) {
                        return ret;
                }
                m->unresolved_functions_import = im;
                tail = &list;
                while (*tail != NULL) {
                        tail = &(*tail)->next;
                }
                *tail = im;
        }
        struct report report;
        report_init(&report);
        ret = instance_create_no_init(m->instance_mctx, m->module, &m->inst,
                                      list, &report);
        if (tail != NULL) {
                *tail = NULL;
        }
        if (ret != 0) {
                report_getmessage(&report);
                report_clear(&report);
                return ret;
        }
        set_memory(st, cconv_memory(m->inst));
        ret = repl_exec_init(st, m, trap_ok);
        if (ret != 0) {
                return ret;
        }
        if (name != NULL) {
                m->name = strdup(name);
                if (m->name == NULL) {
                        return ENOMEM;
                }
        }
        return 0;
}

/* the module counts only when all of it succeeded */
int
ref_toywasm_repl_load__0(struct repl_state *st, const char *name,
                         const char *file, bool trap_ok)
{
        int ret = _vec_prealloc(st->mctx, (void *)&st->modules,
                                sizeof(*st->modules.p), 1);
        if (ret != 0) {
                return ret;
        }
        struct repl_module_state_u *u = &st->modules.p[st->modules.lsize];
        if (st->opts.enable_dyld) {
                if (trap_ok) {
                        return ENOTSUP;
                }
                struct dyld *d = &u->u.dyld;
                dyld_init(d, st->dyld_mctx);
                d->opts = st->opts.dyld_options;
                d->opts.base_import_obj = st->imports;
                ret = dyld_load(d, file);
                if (ret != 0) {
                        return ret;
                }
                set_memory(st, dyld_memory(d));
                ret = dyld_execute_init_funcs(d);
                if (ret != 0) {
                        dyld_clear(d);
                        return ret;
                }
                st->modules.lsize++;
                return 0;
        }
        struct repl_module_state *m = &u->u.repl;
        memset(m, 0, sizeof(*m));
        TRY(map_file(file, (void **)&m->buf, &m->bufsize));
        m->buf_mapped = true;
        TRY(repl_load_from_buf(st, name, m, trap_ok));
        st->modules.lsize++;
        return 0;
fail:
        repl_unload(st, m);
        return ret;
}

int
ref_toywasm_repl_load_hex__0(struct repl_state *st, const char *name,
                             const char *size)
{
        if (st->opts.enable_dyld) {
                return ENOTSUP;
        }
        int ret = _vec_prealloc(st->mctx, (void *)&st->modules,
                                sizeof(*st->modules.p), 1);
        if (ret != 0) {
                return ret;
        }
        struct repl_module_state *m =
                &st->modules.p[st->modules.lsize].u.repl;
        memset(m, 0, sizeof(*m));
        m->bufsize = atoi(size);
        m->buf = malloc(m->bufsize);
        if (m->buf == NULL) {
                ret = ENOMEM;
                goto fail;
        }
        m->buf_mapped = false;
        TRY(read_hex_from_stdin(m->buf, m->bufsize));
        TRY(repl_load_from_buf(st, name, m, true));
        st->modules.lsize++;
        return 0;
fail:
        repl_unload(st, m);
        return ret;
}

/* in an order in which nothing released is still needed */
void
ref_repl_unload__0(struct repl_state *st, struct repl_module_state *m)
{
        if (m->inst != NULL) {
                instance_destroy(m->inst);
                m->inst = NULL;
        }
        if (m->module != NULL) {
                module_destroy(m->module_mctx, m->module);
                m->module = NULL;
        }
        if (m->buf != NULL) {
                if (m->buf_mapped) {
                        unmap_file(m->buf, m->bufsize);
                } else {
                        free(m->buf);
                }
                m->buf = NULL;
        }
        if (m->name != NULL) {
                free(m->name);
                m->name = NULL;
        }
        if (m->extra_import != NULL) {
                import_object_destroy(st->impobj_mctx, m->extra_import);
                m->extra_import = NULL;
        }
        if (m->unresolved_functions_import != NULL) {
                import_object_destroy(st->impobj_mctx,
                                      m->unresolved_functions_import);
                m->unresolved_functions_import = NULL;
        }
        if (m->module_mctx != NULL) {
                mem_context_clear(m->instance_mctx);
                mem_context_clear(m->module_mctx);
                mem_free(st->mctx, m->module_mctx,
                         2 * sizeof(*m->module_mctx));
        }
        m->module_mctx = NULL;
        m->instance_mctx = NULL;
}

/* what the exports of a module are imported by */
int
ref_toywasm_repl_register__0(struct repl_state *st, const char *modname,
                             const char *as)
{
        struct repl_module_state *m;
        struct import_object *im;
        int ret;
        if (st->modules.lsize == 0) {
                return EPROTO;
        }
        ret = find_mod(st, modname, &m);
        if (ret != 0) {
                return ret;
        }
        struct instance *inst = m->inst;
        if (strlen(as) > UINT32_MAX) {
                return EOVERFLOW;
        }
        char *copy = strdup(as);
        struct registered_name *rn = malloc(sizeof(*rn));
        if (copy == NULL || rn == NULL) {
                free(rn);
                free(copy);
                return ENOMEM;
        }
        set_name_cstr(&rn->name, copy);
        ret = import_object_create_for_exports(st->impobj_mctx, inst,
                                               &rn->name, &im);
        if (ret != 0) {
                free(rn);
                free(copy);
                return ret;
        }
        im->next = st->imports;
        st->imports = im;
        rn->next = st->registered_names;
        st->registered_names = rn;
        st->nregister++;
        return 0;
}

int
ref_toywasm_repl_register__1(struct repl_state *st, const char *modname,
                             const char *as)
{
        struct repl_module_state *m;
        struct import_object *im;
        int ret;
        if (st->modules.lsize == 0) {
                return EPROTO;
        }
        ret = find_mod(st, modname, &m);
        if (ret != 0) {
                return ret;
        }
        struct instance *inst = m->inst;
        if (strlen(as) > UINT32_MAX) {
                return EOVERFLOW;
        }
        char *copy = strdup(as);
        struct registered_name *rn = malloc(sizeof(*rn));
        if (copy == NULL || rn == NULL) {
                free(rn);
                free(copy);
                return ENOMEM;
        }
        set_name_cstr(&rn->name, copy);
        ret = import_object_create_for_exports(st->impobj_mctx, inst,
                                               &rn->name, &im);
        if (ret != 0) {
                free(rn);
                free(copy);
                return ret;
        }
        st->nregister++;
        rn->next = st->registered_names;
        st->registered_names = rn;
        im->next = st->imports;
        st->imports = im;
        return 0;
}

int
ref_repl_save__0(struct repl_state *st, const char *name, const char *file)
{
        struct repl_module_state *m;
        if (st->modules.lsize == 0) {
                return EPROTO;
        }
        int ret = find_mod(st, name, &m);
        if (ret != 0) {
                return ret;
        }
        return module_write(file, m->module);
}

/* -- calls */

int
ref_toywasm_repl_set_timeout__0(struct repl_state *st, int ms)
{
        int ret = abstime_from_reltime_ms(CLOCK_MONOTONIC, &st->abstimeout,
                                          ms);
        if (ret == 0) {
                st->has_timeout = true;
        }
        return ret;
}

int
ref_check_timeout__0(const struct timespec *limit)
{
        struct timespec now;
        int ret = timespec_now(CLOCK_MONOTONIC, &now);
        if (ret == 0 && timespec_cmp(&now, limit) > 0) {
                ret = ETIMEDOUT;
        }
        return ret;
}

/* goes on until done or out of time */
int
ref_repl_exec_init__0(struct repl_state *st, struct repl_module_state *m,
                      bool trap_ok)
{
        const bool timed = st->has_timeout;
        struct exec_context ctx;
        int ret;
        exec_context_init(&ctx, m->inst, m->instance_mctx);
        ctx.options = st->opts.exec_options;
        if (timed) {
                setup_timeout(&ctx);
        }
        ret = instance_execute_init(&ctx);
        do {
                if (ret == ETOYWASMUSERINTERRUPT) {
                        int late = check_timeout(&st->abstimeout);
                        if (late != 0) {
                                print_trace(&ctx);
                                ret = late;
                                goto done;
                        }
                }
                ret = instance_execute_handle_restart_once(&ctx, ret);
        } while (IS_RESTARTABLE(ret));
        if (ret == ETOYWASMTRAP) {
                print_trap(&ctx, &ctx.trap);
                if (trap_ok) {
                        ret = 0;
                }
        }
done:
        exec_context_clear(&ctx);
        return ret;
}

int
ref_exec_func__0(struct exec_context *ctx, uint32_t func,
                 const struct resulttype *pt, const struct resulttype *rt,
                 const struct val *params, struct val *results,
                 const struct timespec *limit, const struct trap_info **trap)
{
        int ret;
        *trap = NULL;
        if (limit != NULL) {
                setup_timeout(ctx);
        }
        ret = exec_push_vals(ctx, pt, params);
        if (ret != 0) {
                return ret;
        }
        ret = instance_execute_func(ctx, func, pt, rt);
        do {
                if (ret == ETOYWASMUSERINTERRUPT) {
                        int late = check_timeout(limit);
                        if (late != 0) {
                                print_trace(ctx);
                                return late;
                        }
                }
                ret = instance_execute_handle_restart_once(ctx, ret);
        } while (IS_RESTARTABLE(ret));
        if (ret == ETOYWASMTRAP) {
                *trap = &ctx->trap;
        } else if (ret == 0) {
                exec_pop_vals(ctx, rt, results);
        }
        return ret;
}

/* exactly the arguments the function takes; the exit code of a program that
   exits */
int
ref_toywasm_repl_invoke__0(struct repl_state *st, const char *modname,
                           const char *cmd, uint32_t *exitcode, bool print)
{
        char *copy = strdup(cmd);
        if (copy == NULL) {
                return ENOMEM;
        }
        int ret;
        size_t len;
        struct name name;
        struct repl_module_state_u *u;
        struct instance *inst;
        struct mem_context *mctx;
        uint32_t func;
        uint32_t i;
        char *word = strtok(copy, " ");
        if (word == NULL) {
                ret = EPROTO;
                goto fail;
        }
        TRY(unescape(word, &len));
        if (len > UINT32_MAX) {
                ret = EOVERFLOW;
                goto fail;
        }
        name.data = word;
        name.nbytes = len;
        TRY(find_mod_u(st, modname, &u));
        if (st->opts.enable_dyld) {
                inst = dyld_main_object_instance(&u->u.dyld);
                mctx = st->mctx;
        } else {
                inst = u->u.repl.inst;
                mctx = u->u.repl.instance_mctx;
        }
        const struct module *module = inst->module;
        TRY(module_find_export(module, &name, EXTERNTYPE_FUNC, &func));
        const struct functype *ft = module_functype(module, func);
        const struct resulttype *pt = &ft->parameter;
        const struct resulttype *rt = &ft->result;
        TRY(_vec_resize(st->mctx, (void *)&st->param, sizeof(*st->param.p),
                        pt->ntypes));
        TRY(_vec_resize(st->mctx, (void *)&st->result, sizeof(*st->result.p),
                        rt->ntypes));
        struct val *params = st->param.p;
        struct val *results = st->result.p;
        for (i = 0; i < pt->ntypes; i++) {
                char *arg = strtok(NULL, " ");
                if (arg == NULL) {
                        ret = EPROTO;
                        goto fail;
                }
                TRY(arg_conv(pt->types[i], arg, &params[i]));
        }
        if (strtok(NULL, " ") != NULL) {
                ret = EPROTO;
                goto fail;
        }
        struct exec_context ctx;
        exec_context_init(&ctx, inst, mctx);
        ctx.options = st->opts.exec_options;
        const struct trap_info *trap;
        struct wasi_threads_instance *threads = st->wasi_threads;
        wasi_threads_setup_exec_context(threads, &ctx);
        ret = exec_func(&ctx, func, pt, rt, params, results,
                        st->has_timeout ? &st->abstimeout : NULL, &trap);
        wasi_threads_complete_exec(threads, &trap);
        if (st->opts.print_stats) {
                exec_context_print_stats(&ctx);
                instance_print_stats(inst);
        }
        if (ret == ETOYWASMTRAP) {
                if (trap->trapid == TRAP_VOLUNTARY_EXIT) {
                        uint32_t code = wasi_instance_exit_code(st->wasi);
                        if (exitcode != NULL) {
                                *exitcode = code;
                                ret = 0;
                        } else {
                                ret = code;
                        }
                        exec_context_clear(&ctx);
                        goto fail;
                }
                print_trap(&ctx, trap);
        }
        exec_context_clear(&ctx);
        if (ret != 0) {
                goto fail;
        }
        if (print) {
                TRY(repl_print_result(rt, results));
        }
        if (exitcode != NULL) {
                *exitcode = 0;
        }
fail:
        free(copy);
        return ret;
}

int
ref_repl_global_get__0(struct repl_state *st, const char *modname,
                       const char *what)
{
        char *copy = strdup(what);
        if (copy == NULL) {
                return ENOMEM;
        }
        int ret;
        size_t len;
        struct name name;
        struct repl_module_state *m;
        uint32_t idx;
        TRY(unescape(copy, &len));
        if (len > UINT32_MAX) {
                ret = EOVERFLOW;
                goto fail;
        }
        name.data = copy;
        name.nbytes = len;
        TRY(find_mod(st, modname, &m));
        struct instance *inst = m->inst;
        struct module *module = m->module;
        TRY(module_find_export(module, &name, EXTERNTYPE_GLOBAL, &idx));
        enum valtype t = module_globaltype(module, idx)->t;
        const struct resulttype rt = {
                .types = &t,
                .ntypes = 1,
        };
        struct val v = inst->globals.p[idx]->val;
        ret = repl_print_result(&rt, &v);
fail:
        free(copy);
        return ret;
}

int
ref_repl_module_subcmd__0(struct repl_state *st, const char *cmd,
                          const char *modname, const char *opt)
{
        if (strcmp(cmd, "load") == 0 && opt != NULL) {
                return toywasm_repl_load(st, modname, opt, true);
        }
        if (strcmp(cmd, "load-hex") == 0 && opt != NULL) {
                return toywasm_repl_load_hex(st, modname, opt);
        }
        if (strcmp(cmd, "invoke") == 0 && opt != NULL) {
                return toywasm_repl_invoke(st, modname, opt, NULL, true);
        }
        if (strcmp(cmd, "register") == 0 && opt != NULL) {
                return toywasm_repl_register(st, modname, opt);
        }
        if (strcmp(cmd, "save") == 0 && opt != NULL) {
                return repl_save(st, modname, opt);
        }
        if (strcmp(cmd, "global-get") == 0 && opt != NULL) {
                return repl_global_get(st, modname, opt);
        }
        return 0;
}

void
ref_print_trap__0(const struct exec_context *ctx,
                  const struct trap_info *trap)
{
        enum trapid id = trap->trapid;
        const char *what = "unknown";
        const char *msg = report_getmessage(ctx->report);
        switch (id) {
        case TRAP_DIV_BY_ZERO:
                what = "integer divide by zero";
                break;
        case TRAP_INTEGER_OVERFLOW:
                what = "integer overflow";
                break;
        case TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS:
        case TRAP_OUT_OF_BOUNDS_DATA_ACCESS:
                what = "out of bounds memory access";
                break;
        case TRAP_OUT_OF_BOUNDS_TABLE_ACCESS:
        case TRAP_OUT_OF_BOUNDS_ELEMENT_ACCESS:
                what = "out of bounds table access";
                break;
        case TRAP_CALL_INDIRECT_NULL_FUNCREF:
                what = "uninitialized element";
                break;
        case TRAP_TOO_MANY_FRAMES:
        case TRAP_TOO_MANY_STACKCELLS:
                what = "stack overflow";
                break;
        case TRAP_CALL_INDIRECT_OUT_OF_BOUNDS_TABLE_ACCESS:
                what = "undefined element";
                break;
        case TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH:
                what = "indirect call type mismatch";
                break;
        case TRAP_UNREACHABLE:
                what = "unreachable executed";
                break;
        case TRAP_INVALID_CONVERSION_TO_INTEGER:
                what = "invalid conversion to integer";
                break;
        case TRAP_ATOMIC_WAIT_ON_NON_SHARED_MEMORY:
                what = "expected shared memory";
                break;
        case TRAP_UNALIGNED_ATOMIC_OPERATION:
                what = "unaligned atomic";
                break;
        case TRAP_UNCAUGHT_EXCEPTION:
                what = "uncaught exception";
                break;
        default:
                break;
        }
        nbio_printf("Error: [trap] %s (%u): %s\n", what, id, msg);
        print_trace(ctx);
}

void
ref_repl_unload_u__0(struct repl_state *st, struct repl_module_state_u *u)
{
        if (st->opts.enable_dyld) {
                if (st->opts.print_stats) {
                        dyld_print_stats(&u->u.dyld);
                }
                dyld_clear(&u->u.dyld);
        } else {
                repl_unload(st, &u->u.repl);
        }
}
