/*
 * Names of functions, globals and data segments for messages: the name
 * section, in the order of indexes, then the exports.
 */
#include <errno.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#include "context.h"
#include "decode.h"
#include "leb128.h"
#include "mem.h"
#include "module.h"
#include "escape.h"
#include "name.h"
#include "type.h"

extern unsigned int max_escaped_len;

struct naming {
        uint32_t idx;
        uint32_t offset;
};

extern const char *unknown_name;

struct naming_ctx {
        const struct module *module;
        uint32_t last;
};

int read_naming(const uint8_t **, const uint8_t *, uint32_t, struct naming *,
                void *);
int parse_namemap(struct nametable *, struct namemap *, const struct module *,
                  const uint8_t *, const uint8_t *);
int parse_name_section(struct nametable *, const struct module *);
int namemap_lookup(const struct module *, const struct namemap *, uint32_t,
                   struct name *);
void nametable_add_module(struct nametable *, const struct module *);
int exports_lookup(const struct module *, enum externtype, uint32_t,
                   struct name *);

#define TRY(x)                                                                \
        do {                                                                  \
                int e = (x);                                                  \
                if (e != 0) {                                                 \
                        return e;                                             \
                }                                                             \
        } while (0)

/* indexes ascend; the name is well formed; where it starts is kept */
int
ref_read_naming__0(const uint8_t **pp, const uint8_t *ep, uint32_t idx,
                   struct naming *out, void *vctx)
{
        struct naming_ctx *ctx = vctx;
        const struct module *m = ctx->module;
        const uint8_t *p = *pp;
        struct name name;
        TRY(read_leb_u32(&p, ep, &out->idx));
        if (idx != 0 && out->idx <= ctx->last) {
                return EINVAL;
        }
        ctx->last = out->idx;
        const uint8_t *start = p;
        TRY(read_name(&p, ep, &name));
        out->offset = ptr2pc(m, start);
        *pp = p;
        return 0;
}

int
ref_parse_namemap__0(struct nametable *table, struct namemap *map,
                     const struct module *m, const uint8_t *p,
                     const uint8_t *ep)
{
        struct naming_ctx ctx;
        ctx.module = m;
        map->entries = NULL;
        return _read_vec_with_ctx_impl(
                &table->mctx, &p, ep, sizeof(struct naming),
                (read_elem_with_ctx_func_t)read_naming, NULL, &ctx,
                &map->nentries, (void **)&map->entries);
}

/* each kind at most once, in order; kinds that are not known are skipped */
int
ref_parse_name_section__0(struct nametable *table, const struct module *m)
{
        const uint8_t *p = m->name_section_start;
        const uint8_t *ep = m->name_section_end;
        int last = -1;
        while (p < ep) {
                uint32_t kind;
                uint32_t size;
                TRY(read_leb_u32(&p, ep, &kind));
                if (kind > 127) {
                        return EINVAL;
                }
                if ((int)kind <= last) {
                        return EINVAL;
                }
                last = (int)kind;
                TRY(read_leb_u32(&p, ep, &size));
                if (kind == 0) {
                        TRY(read_name(&p, ep, &table->module_name));
                        continue;
                }
                if (kind == 1) {
                        TRY(parse_namemap(table, &table->funcs, m, p, ep));
                } else if (kind == 7) {
                        TRY(parse_namemap(table, &table->globals, m, p, ep));
                } else if (kind == 9) {
                        TRY(parse_namemap(table, &table->datas, m, p, ep));
                }
                if (ep - p < size) {
                        return 0;
                }
                p += size;
        }
        return 0;
}

int
ref_namemap_lookup__0(const struct module *m, const struct namemap *map,
                      uint32_t idx, struct name *name)
{
        uint32_t lo = 0;
        uint32_t hi = map->nentries;
        while (lo < hi) {
                uint32_t mid = (lo + hi) / 2;
                const struct naming *n = &map->entries[mid];
                if (n->idx == idx) {
                        const uint8_t *p = m->bin + n->offset;
                        name->nbytes = read_leb_u32_nocheck(&p);
                        name->data = (const char *)p;
                        return 0;
                }
                if (n->idx < idx) {
                        lo = mid + 1;
                } else {
                        hi = mid;
                }
        }
        return ENOENT;
}

void
ref_nametable_init__0(struct nametable *t)
{
        mem_context_init(&t->mctx);
        t->funcs.nentries = 0;
        t->funcs.entries = NULL;
        t->globals.nentries = 0;
        t->globals.entries = NULL;
        t->datas.nentries = 0;
        t->datas.entries = NULL;
        t->module_name.data = NULL;
        t->module = NULL;
}

static void
drop(struct nametable *t, struct namemap *map)
{
        mem_free(&t->mctx, map->entries, map->nentries * sizeof(struct naming));
        map->nentries = 0;
        map->entries = NULL;
}

void
ref_nametable_clear__0(struct nametable *t)
{
        drop(t, &t->funcs);
        drop(t, &t->globals);
        drop(t, &t->datas);
        t->module_name.data = NULL;
        t->module = NULL;
        mem_context_clear(&t->mctx);
}

/* the names of one module at a time */
void
ref_nametable_add_module__0(struct nametable *t, const struct module *m)
{
        if (m->name_section_start == NULL || t->module == m) {
                return;
        }
        if (t->module != NULL) {
                nametable_clear(t);
        }
        if (parse_name_section(t, m) != 0) {
                nametable_clear(t);
                return;
        }
        t->module = m;
}

int
ref_exports_lookup__0(const struct module *m, enum externtype type,
                      uint32_t idx, struct name *name)
{
        uint32_t i;
        for (i = 0; i < m->nexports; i++) {
                const struct wasm_export *e = &m->exports[i];
                if (e->desc.type == type && e->desc.idx == idx) {
                        *name = e->name;
                        return 0;
                }
        }
        return ENOENT;
}

void
ref_nametable_lookup_func__0(struct nametable *t, const struct module *m,
                             uint32_t idx, struct name *name)
{
        nametable_add_module(t, m);
        if (t->module == m && namemap_lookup(m, &t->funcs, idx, name) == 0) {
                return;
        }
        if (exports_lookup(m, EXTERNTYPE_FUNC, idx, name) == 0) {
                return;
        }
        set_name_cstr(name, unknown_name);
}

void
ref_nametable_lookup_global__0(struct nametable *t, const struct module *m,
                               uint32_t idx, struct name *name)
{
        nametable_add_module(t, m);
        if (t->module == m && namemap_lookup(m, &t->globals, idx, name) == 0) {
                return;
        }
        if (exports_lookup(m, EXTERNTYPE_GLOBAL, idx, name) == 0) {
                return;
        }
        set_name_cstr(name, unknown_name);
}

void
ref_nametable_lookup_data__0(struct nametable *t, const struct module *m,
                             uint32_t idx, struct name *name)
{
        nametable_add_module(t, m);
        if (t->module == m && namemap_lookup(m, &t->datas, idx, name) == 0) {
                return;
        }
        set_name_cstr(name, unknown_name);
}

void
ref_nametable_lookup_module__0(struct nametable *t, const struct module *m,
                               struct name *name)
{
        nametable_add_module(t, m);
        if (t->module == m && t->module_name.data != NULL) {
                *name = t->module_name;
                return;
        }
        set_name_cstr(name, unknown_name);
}

/* -- names as they are shown */
static bool
special(char c)
{
        return c < 0x20 || c >= 0x7f || c == ' ' || c == '=' || c == ':' ||
               c == '\\' || c == ',';
}

static char
digit(uint8_t v)
{
        static const char digits[16] = "01234567";
        return digits[v];
}

/* special characters in octal; what is longer than the limit ends in ".." */
void
ref_escape_name__0(struct escaped_string *e, const struct name *n)
{
        const char *from = n->data;
        const char *end = from + n->nbytes;
        bool cut = false;
        size_t len = 0;
        const char *p;
        for (p = from; p < end; p++) {
                unsigned int need = special(*p) ? 4 : 1;
                if (max_escaped_len - len < need) {
                        cut = true;
                        len = max_escaped_len;
                        break;
                }
                len += need;
        }
        e->orig = from;
        e->escaped_len = (uint32_t)len;
        if (!cut && len == end - from) {
                e->escaped = (char *)from;
                return;
        }
        unsigned int lim = max_escaped_len;
        if (!cut && len <= sizeof(e->small)) {
                e->escaped = e->small;
        } else {
                e->escaped = malloc(len);
                if (e->escaped == NULL) {
                        e->escaped = e->small;
                        lim = sizeof(e->small) - 2;
                } else if (cut) {
                        lim = max_escaped_len - 2;
                }
        }
        char *out = e->escaped;
        const char *first = out;
        for (p = from; p < end; p++) {
                char c = *p;
                if (special(c)) {
                        if (out + 4 - first > lim) {
                                break;
                        }
                        *out++ = '\\';
                        *out++ = digit(((uint8_t)c >> 6) & 7);
                        *out++ = digit(((uint8_t)c >> 3) & 7);
                        *out++ = digit((uint8_t)c & 7);
                } else {
                        if (out + 1 - first > lim) {
                                break;
                        }
                        *out++ = c;
                }
        }
        if (p < end) {
                *out++ = '.';
                *out++ = '.';
                e->escaped_len = (int)(out - e->escaped);
        }
}

void
ref_escaped_string_clear__0(struct escaped_string *e)
{
        if (e->escaped != e->orig && e->escaped != e->small) {
                free(e->escaped);
        }
}

void
ref_set_max_escaped_len__0(int n)
{
        max_escaped_len = n;
}
