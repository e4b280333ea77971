"""How each instruction is decoded and validated, written down as C against
the validation interface of /repo (push/pop of operand types, control frames,
label types), so that it can be compiled and compared with the code."""
from . import wasmspec

PRE = r"""
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include "context.h"
#include "validation.h"
#include "module.h"
#include "type.h"
#include "decode.h"
#include "leb128.h"
#include "bitmap.h"
#include "mem.h"

int get_functype_for_blocktype(struct mem_context *, struct module *, int64_t,
    struct resulttype **, struct resulttype **);

#define E(x) do { if (x) return 22; } while (0)
#define CK(c) do { if (!(c)) return 22; } while (0)
#define POP(t) do { enum valtype o_; E(pop_valtype(t, &o_, v)); } while (0)
#define PUSH(t) E(push_valtype(t, v))
#define U32(x) uint32_t x; E(read_leb_u32(&p, ep, &x))
#define U8(x) uint8_t x; E(read_u8(&p, ep, &x))
#define FUNCIDX(x) U32(x); CK(x < m->nimportedfuncs + m->nfuncs)
#define TABIDX(x) U32(x); CK(x < m->nimportedtables + m->ntables)
#define MEMIDX(x) U32(x); CK(x < m->nimportedmems + m->nmems)
#define GLOBIDX(x) U32(x); CK(x < m->nimportedglobals + m->nglobals)
#define TAGIDX(x) U32(x); CK(x < m->nimportedtags + m->ntags)
#define TYPEIDX(x) U32(x); CK(x < m->ntypes)
#define ELEMIDX(x) U32(x); CK(x < m->nelems)
#define LOCIDX(x) U32(x); CK(x < v->locals.lsize)
#define DATAIDX(x) U32(x); CK(v->has_datacount); CK(x < v->ndatas_in_datacount)
#define BLOCK(op, first) \
    int64_t bt; E(read_leb_s(&p, ep, 33, &bt)); first; \
    struct resulttype *a = NULL, *b = NULL; \
    E(get_functype_for_blocktype(v->mctx, v->module, bt, &a, &b)); \
    E(pop_valtypes(a, v)); \
    E(push_ctrlframe(ptr2pc(m, orig - 1), op, 0, a, b, v))
#define MEMARG(al, off, idx) \
    uint32_t al, off, idx = 0; E(read_leb_u32(&p, ep, &al)); \
    if (al & 0x40) { E(read_leb_u32(&p, ep, &idx)); al &= ~0x40u; } \
    E(read_leb_u32(&p, ep, &off)); \
    CK(idx < m->nimportedmems + m->nmems)

int vref_mode(const uint8_t **pp, const uint8_t *ep, struct context *ctx)
{
    return ctx->validation == NULL;
}
int vref_const(const uint8_t **pp, const uint8_t *ep, struct context *ctx)
{
    return ctx->validation->const_expr;
}
"""

HEAD = """int vref_%d_%d(const uint8_t **pp, const uint8_t *ep, struct context *ctx)
{
    struct validation_context *v = ctx->validation;
    const struct module *m = v->module;
    const uint8_t *const orig = *pp;
    const uint8_t *p = orig;
"""

SHEAD = """int sref_%d(const uint8_t **pp, const uint8_t *ep, struct context *ctx)
{
    const uint8_t *p = *pp;
"""

T = {t: "TYPE_" + t for t in ("i32", "i64", "f32", "f64", "v128", "funcref",
                              "externref", "exnref")}

CALLI = """
TYPEIDX(t); TABIDX(x); POP(TYPE_i32);
CK(module_tabletype(m, x)->et == TYPE_funcref);
const struct functype *ft = &m->types[t]; E(pop_valtypes(&ft->parameter, v));
"""

SPECIAL = {
    "unreachable": ["mark_unreachable(v);"],
    "nop": [""],
    "block": ["BLOCK(FRAME_OP_BLOCK,);"],
    "loop": ["BLOCK(FRAME_OP_LOOP,);"],
    "if": ["BLOCK(FRAME_OP_IF, POP(TYPE_i32));"],
    "else": ["""
struct ctrlframe f; uint32_t pc = ptr2pc(m, p);
E(pop_ctrlframe(pc, true, &f, v));
E(push_ctrlframe(pc - 1, FRAME_OP_ELSE, f.jumpslot, f.start_types,
    f.end_types, v));"""],
    "end": ["""
struct ctrlframe f; uint32_t pc = ptr2pc(m, p);
E(pop_ctrlframe(pc, false, &f, v));
if (f.op == FRAME_OP_IF) {
    E(push_ctrlframe(pc, FRAME_OP_EMPTY_ELSE, 0, f.start_types, f.end_types,
        v));
    E(pop_ctrlframe(pc, false, &f, v));
}
if (f.op != FRAME_OP_INVOKE) E(push_valtypes(f.end_types, v));"""],
    "br": ["""
U32(l); const struct resulttype *rt; E(target_label_types(v, l, &rt));
E(pop_valtypes(rt, v)); mark_unreachable(v);"""],
    "br_if": ["""
U32(l); POP(TYPE_i32); const struct resulttype *rt;
E(target_label_types(v, l, &rt));
if (!v->cframes.p[v->cframes.lsize - 1].unreachable) {
    E(peek_valtypes(rt, v));
} else {
    E(pop_valtypes(rt, v)); E(push_valtypes(rt, v));
}""", """
U32(l); POP(TYPE_i32); const struct resulttype *rt;
E(target_label_types(v, l, &rt));
E(pop_valtypes(rt, v)); E(push_valtypes(rt, v));"""],
    "br_table": ["""
uint32_t n = 0, *t = NULL;
E(read_vec_u32(v->mctx, &p, ep, &n, &t)); U32(d); POP(TYPE_i32);
const struct resulttype *rd; E(target_label_types(v, d, &rd));
uint32_t i;
for (i = 0; i < n; i++) {
    const struct resulttype *rt; E(target_label_types(v, t[i], &rt));
    CK(rt->ntypes == rd->ntypes); E(peek_valtypes(rt, v));
}
E(pop_valtypes(rd, v)); mark_unreachable(v);"""],
    "return": ["E(pop_valtypes(returntype(v), v)); mark_unreachable(v);"],
    "call": ["""
FUNCIDX(x); const struct functype *ft = module_functype(m, x);
E(pop_valtypes(&ft->parameter, v)); E(push_valtypes(&ft->result, v));"""],
    "call_indirect": [CALLI + "E(push_valtypes(&ft->result, v));"],
    "return_call": ["""
FUNCIDX(x); const struct functype *ft = module_functype(m, x);
E(pop_valtypes(&ft->parameter, v));
CK(compare_resulttype(returntype(v), &ft->result) == 0);
mark_unreachable(v);"""],
    "return_call_indirect": [CALLI + """
CK(compare_resulttype(returntype(v), &ft->result) == 0);
mark_unreachable(v);"""],
    "throw": ["""
TAGIDX(x);
const struct functype *ft = module_tagtype_functype(m, module_tagtype(m, x));
E(pop_valtypes(&ft->parameter, v)); PUSH(TYPE_exnref);
mark_unreachable(v);"""],
    "throw_ref": ["POP(TYPE_exnref); mark_unreachable(v);"],
    "try_table": ["""
int64_t bt; E(read_leb_s(&p, ep, 33, &bt)); U32(n);
struct resulttype *a = NULL, *b = NULL;
E(get_functype_for_blocktype(v->mctx, v->module, bt, &a, &b));
E(pop_valtypes(a, v));
uint32_t i;
for (i = 0; i < n; i++) {
    const struct resulttype *trt = NULL; bool ref = false; uint32_t x;
    U8(k);
    switch (k) {
    case CATCH_REF: ref = true;
    case CATCH:
        E(read_leb_u32(&p, ep, &x));
        CK(x < m->nimportedtags + m->ntags);
        trt = &module_tagtype_functype(m, module_tagtype(m, x))->parameter;
        break;
    case CATCH_ALL_REF: ref = true;
    case CATCH_ALL: break;
    default: return 22;
    }
    U32(l); const struct resulttype *lrt; E(target_label_types(v, l, &lrt));
    uint32_t h = v->valtypes.lsize;
    if (trt != NULL) E(push_valtypes(trt, v));
    if (ref) PUSH(TYPE_exnref);
    CK(v->valtypes.lsize - h == lrt->ntypes);
    E(pop_valtypes(lrt, v));
}
E(push_ctrlframe(ptr2pc(m, orig - 1), FRAME_OP_TRY_TABLE, 0, a, b, v));"""],
    "drop": ["""
enum valtype t; E(pop_valtype(TYPE_UNKNOWN, &t, v));
E(record_type_annotation(v, p, t));"""],
    "select": ["""
POP(TYPE_i32); enum valtype t, o; E(pop_valtype(TYPE_UNKNOWN, &t, v));
E(pop_valtype(t, &o, v)); E(record_type_annotation(v, p, t));
CK(is_numtype(t) || is_vectype(t) || t == TYPE_UNKNOWN);
PUSH(t);"""],
    "select_t": ["""
U32(n); CK(n == 1); U8(x); enum valtype t = x; CK(is_valtype(t));
POP(TYPE_i32); POP(t); POP(t); PUSH(t);"""],
    "local.get": ["LOCIDX(x); PUSH(v->locals.p[x]);"],
    "local.set": ["LOCIDX(x); POP(v->locals.p[x]);"],
    "local.tee": ["LOCIDX(x); POP(v->locals.p[x]); PUSH(v->locals.p[x]);"],
    "global.get": ["""
GLOBIDX(x);
if (v->const_expr) {
    CK(x < m->nimportedglobals);
    CK(module_globaltype(m, x)->mut == GLOBAL_CONST);
}
PUSH(module_globaltype(m, x)->t);"""],
    "global.set": ["""
GLOBIDX(x); CK(module_globaltype(m, x)->mut != GLOBAL_CONST);
POP(module_globaltype(m, x)->t);"""],
    "table.get": ["""
TABIDX(x); POP(TYPE_i32); PUSH(module_tabletype(m, x)->et);"""],
    "table.set": ["""
TABIDX(x); POP(module_tabletype(m, x)->et); POP(TYPE_i32);"""],
    "ref.null": ["U8(x); enum valtype t = x; CK(is_reftype(t)); PUSH(t);"],
    "ref.is_null": ["""
enum valtype t; E(pop_valtype(TYPE_ANYREF, &t, v));
E(record_type_annotation(v, p, t)); PUSH(TYPE_i32);"""],
    "ref.func": ["""
FUNCIDX(x);
if (v->const_expr) bitmap_set(v->refs, x); else CK(bitmap_test(v->refs, x));
PUSH(TYPE_funcref);"""],
    "memory.init": ["""
DATAIDX(x); MEMIDX(y); POP(TYPE_i32); POP(TYPE_i32); POP(TYPE_i32);"""],
    "data.drop": ["DATAIDX(x);"],
    "table.init": ["""
ELEMIDX(x); TABIDX(y); CK(module_tabletype(m, y)->et == m->elems[x].type);
POP(TYPE_i32); POP(TYPE_i32); POP(TYPE_i32);"""],
    "elem.drop": ["ELEMIDX(x);"],
    "table.copy": ["""
TABIDX(x); TABIDX(y);
CK(module_tabletype(m, x)->et == module_tabletype(m, y)->et);
POP(TYPE_i32); POP(TYPE_i32); POP(TYPE_i32);"""],
    "table.grow": ["""
TABIDX(x); POP(TYPE_i32); POP(module_tabletype(m, x)->et); PUSH(TYPE_i32);
"""],
    "table.size": ["TABIDX(x); PUSH(TYPE_i32);"],
    "table.fill": ["""
TABIDX(x); POP(TYPE_i32); POP(module_tabletype(m, x)->et); POP(TYPE_i32);"""],
}

# what a decoder that trusts the module reads
SKIP = {
    "u32": "read_leb_u32_nocheck(&p);",
    "memidx": "read_leb_u32_nocheck(&p);",
    "i32": "read_leb_i32_nocheck(&p);",
    "i64": "read_leb_i64_nocheck(&p);",
    "f32": "p += 4;",
    "f64": "p += 8;",
    "v128": "p += 16;",
    "zero": "p += 1;",
    "reftype": "p += 1;",
    "blocktype": "read_leb_s33_nocheck(&p);",
    "vec": "read_leb_u32_nocheck(&p); p += 1;",
}


def immediates(o):
    """C that reads and checks the immediates of a monomorphic instruction"""
    out = []
    for k, t in enumerate(o.imm):
        if t.startswith("memarg"):
            op, n = t[6:].lstrip("<").split("=")[0], t.split("=")[1]
            out.append("MEMARG(al%d, off%d, idx%d); CK(al%d %s %s);" % (
                k, k, k, k, "<=" if "<" in t else "==", n))
        elif t.startswith("lane"):
            out.append("U8(lane%d); CK(lane%d < %s);" % (
                k, k, t.split("<")[1]))
        elif t == "memidx":
            out.append("MEMIDX(x%d);" % k)
        elif t == "u32":
            out.append("U32(x%d);" % k)
        elif t == "i32":
            out.append("uint32_t x%d; E(read_leb_i32(&p, ep, &x%d));" %
                       (k, k))
        elif t == "i64":
            out.append("uint64_t x%d; E(read_leb_i64(&p, ep, &x%d));" %
                       (k, k))
        elif t == "f32":
            out.append("uint32_t x%d; E(read_u32(&p, ep, &x%d));" % (k, k))
        elif t == "f64":
            out.append("uint64_t x%d; E(read_u64(&p, ep, &x%d));" % (k, k))
        elif t == "v128":
            out.append("CK(ep - p >= 16); p += 16;")
        elif t == "zero":
            out.append("U8(z%d); CK(z%d == 0);" % (k, k))
        else:
            raise KeyError(t)
    return "\n".join(out)


def bodies(o):
    if o.name in SPECIAL:
        return SPECIAL[o.name]
    out = immediates(o)
    for t in reversed(o.params):
        out += " POP(%s);" % T[t]
    for t in o.results:
        out += " PUSH(%s);" % T[t]
    return [out]


def skip(o):
    if o.name == "try_table":
        return """read_leb_s33_nocheck(&p);
uint32_t i, n = read_leb_u32_nocheck(&p);
for (i = 0; i < n; i++) {
    uint8_t k = *p++;
    if (k == CATCH || k == CATCH_REF) read_leb_u32_nocheck(&p);
    read_leb_u32_nocheck(&p);
}"""
    if o.name == "br_table":
        return """uint32_t n = 0, *t = NULL;
E(read_vec_u32(NULL, &p, ep, &n, &t)); read_leb_u32_nocheck(&p);"""
    out = []
    for t in o.imm:
        if t.startswith("memarg"):
            out.append("{ uint32_t al = read_leb_u32_nocheck(&p); "
                       "if (al & 0x40) read_leb_u32_nocheck(&p); "
                       "read_leb_u32_nocheck(&p); }")
        elif t.startswith("lane"):
            out.append("p += 1;")
        else:
            out.append(SKIP[t])
    return " ".join(out)


def reference():
    out = [PRE]
    for n, o in enumerate(wasmspec.OPS):
        for k, b in enumerate(bodies(o)):
            out.append(HEAD % (n, k) + b + "\n    *pp = p; return 0;\n}")
        s = skip(o)
        if s is not None:
            out.append(SHEAD % n + s + "\n    *pp = p; return 0;\n}")
    return "\n".join(out) + "\n"
