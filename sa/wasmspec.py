"""The WebAssembly instruction set, written down independently of /repo:
opcode, immediates, operand and result types, constant-expression status, and
(as C) what the instruction computes."""


class Op:
    def __init__(self, prefix, code, name, imm, params, results, cls,
                 body=None, const=False, traps=()):
        self.prefix = prefix
        self.code = code
        self.name = name
        self.imm = imm            # list of immediates
        self.params = params      # list of types or None (polymorphic)
        self.results = results
        self.cls = cls
        self.body = body or []    # alternative C bodies
        self.const = const

    @property
    def ident(self):
        return self.name.replace(".", "_")

    @property
    def opcode(self):
        if self.prefix:
            return "0x%02x 0x%02x" % (self.prefix, self.code)
        return "0x%02x" % self.code


OPS = []
CELLS = {"i32": 1, "i64": 2, "f32": 1, "f64": 2, "v128": 4}
CT = {"i32": "u32", "i64": "u64", "f32": "f32", "f64": "f64", "v128": "V"}


def op(prefix, code, name, imm, params, results, cls, body=None, const=False):
    if isinstance(body, str):
        body = [body]
    OPS.append(Op(prefix, code, name, imm, params, results, cls, body, const))


def num(code, name, params, result, *bodies, cls="int", prefix=0):
    """operands are a, b, …; the body assigns r or traps"""
    op(prefix, code, name, [], params, [result], cls, list(bodies))


# ---------------------------------------------------------------- control
C = None
op(0, 0x00, "unreachable", [], C, C, "control")
op(0, 0x01, "nop", [], [], [], "control")
op(0, 0x02, "block", ["blocktype"], C, C, "control")
op(0, 0x03, "loop", ["blocktype"], C, C, "control")
op(0, 0x04, "if", ["blocktype"], C, C, "control")
op(0, 0x05, "else", [], C, C, "control")
op(0, 0x08, "throw", ["u32"], C, C, "control")
op(0, 0x0a, "throw_ref", [], C, C, "control")
op(0, 0x0b, "end", [], C, C, "control", const=True)
op(0, 0x0c, "br", ["u32"], C, C, "control")
op(0, 0x0d, "br_if", ["u32"], C, C, "control")
op(0, 0x0e, "br_table", ["brtable"], C, C, "control")
op(0, 0x0f, "return", [], C, C, "control")
op(0, 0x10, "call", ["u32"], C, C, "control")
op(0, 0x11, "call_indirect", ["u32", "u32"], C, C, "control")
op(0, 0x12, "return_call", ["u32"], C, C, "control")
op(0, 0x13, "return_call_indirect", ["u32", "u32"], C, C, "control")
op(0, 0x1a, "drop", [], C, C, "control")
op(0, 0x1b, "select", [], C, C, "control")
op(0, 0x1c, "select_t", ["vec"], C, C, "control")
op(0, 0x1f, "try_table", ["trytable"], C, C, "control")
op(0, 0x20, "local.get", ["u32"], [], C, "control")
op(0, 0x21, "local.set", ["u32"], C, [], "control")
op(0, 0x22, "local.tee", ["u32"], C, C, "control")
op(0, 0x23, "global.get", ["u32"], [], C, "control", const=True)
op(0, 0x24, "global.set", ["u32"], C, [], "control")
op(0, 0x25, "table.get", ["u32"], ["i32"], C, "control")
op(0, 0x26, "table.set", ["u32"], C, [], "control")
op(0, 0xd0, "ref.null", ["reftype"], [], C, "control", const=True)
op(0, 0xd1, "ref.is_null", [], C, ["i32"], "control")
op(0, 0xd2, "ref.func", ["u32"], [], ["funcref"], "control", const=True)


# ----------------------------------------------------------------- memory
def load(prefix, code, name, t, bits, expr, cls="memory", align=None):
    al = {8: 0, 16: 1, 32: 2, 64: 3, 128: 4}[bits]
    b = "MEMARG; u32 i = a; void *d; MEMPTR(d, i, %d); %s" % (bits // 8, expr)
    op(prefix, code, name, ["memarg<=%d" % al], ["i32"], [t], cls, b)


def store(prefix, code, name, t, bits, expr):
    al = {8: 0, 16: 1, 32: 2, 64: 3, 128: 4}[bits]
    b = "MEMARG; u32 i = a; void *d; MEMPTR(d, i, %d); %s" % (bits // 8, expr)
    op(prefix, code, name, ["memarg<=%d" % al], ["i32", t], [], "memory", b)


def ld(bits, ctype):
    return "%s x; __builtin_memcpy(&x, d, %d); r = x;" % (ctype, bits // 8)


def stx(bits, ctype):
    return "%s x = (%s)b; __builtin_memcpy(d, &x, %d);" % (ctype, ctype,
                                                           bits // 8)


load(0, 0x28, "i32.load", "i32", 32, ld(32, "u32"))
load(0, 0x29, "i64.load", "i64", 64, ld(64, "u64"))
load(0, 0x2a, "f32.load", "f32", 32, ld(32, "f32"))
load(0, 0x2b, "f64.load", "f64", 64, ld(64, "f64"))
for _n, (_t, _b) in enumerate([("i32", 8), ("i32", 16), ("i64", 8),
                               ("i64", 16), ("i64", 32)]):
    _w = CT[_t]
    load(0, 0x2c + 2 * _n, "%s.load%d_s" % (_t, _b), _t, _b,
         "s%d x; __builtin_memcpy(&x, d, %d); r = (%s)(%s)x;" %
         (_b, _b // 8, _w, _w.replace("u", "s")))
    load(0, 0x2d + 2 * _n, "%s.load%d_u" % (_t, _b), _t, _b,
         "u%d x; __builtin_memcpy(&x, d, %d); r = (%s)x;" % (_b, _b // 8, _w))
store(0, 0x36, "i32.store", "i32", 32, stx(32, "u32"))
store(0, 0x37, "i64.store", "i64", 64, stx(64, "u64"))
store(0, 0x38, "f32.store", "f32", 32, stx(32, "f32"))
store(0, 0x39, "f64.store", "f64", 64, stx(64, "f64"))
store(0, 0x3a, "i32.store8", "i32", 8, stx(8, "u8"))
store(0, 0x3b, "i32.store16", "i32", 16, stx(16, "u16"))
store(0, 0x3c, "i64.store8", "i64", 8, stx(8, "u8"))
store(0, 0x3d, "i64.store16", "i64", 16, stx(16, "u16"))
store(0, 0x3e, "i64.store32", "i64", 32, stx(32, "u32"))
op(0, 0x3f, "memory.size", ["memidx"], [], ["i32"], "memory2")
op(0, 0x40, "memory.grow", ["memidx"], ["i32"], ["i32"], "memory",
   "MEMIDX; r = memory_grow2(ctx, memidx, a);")

# -------------------------------------------------------------- constants
op(0, 0x41, "i32.const", ["i32"], [], ["i32"], "int",
   "r = (u32)read_leb_i32_nocheck(&p);", const=True)
op(0, 0x42, "i64.const", ["i64"], [], ["i64"], "int",
   "r = (u64)read_leb_i64_nocheck(&p);", const=True)
op(0, 0x43, "f32.const", ["f32"], [], ["f32"], "float",
   "__builtin_memcpy(&r, p, 4); p += 4;", const=True)
op(0, 0x44, "f64.const", ["f64"], [], ["f64"], "float",
   "__builtin_memcpy(&r, p, 8); p += 8;", const=True)

# ------------------------------------------------------- integer compares
REL = [("eq", "=="), ("ne", "!="), ("lt_s", "<"), ("lt_u", "<"),
       ("gt_s", ">"), ("gt_u", ">"), ("le_s", "<="), ("le_u", "<="),
       ("ge_s", ">="), ("ge_u", ">=")]
for _t, _z, _base, _w in (("i32", 0x45, 0x46, 32), ("i64", 0x50, 0x51, 64)):
    num(_z, _t + ".eqz", [_t], "i32", "r = a == 0;")
    for _n, (_nm, _o) in enumerate(REL):
        _c = "(s%d)" % _w if _nm.endswith("_s") else ""
        num(_base + _n, "%s.%s" % (_t, _nm), [_t, _t], "i32",
            "r = %sa %s %sb;" % (_c, _o, _c))
for _t, _base in (("f32", 0x5b), ("f64", 0x61)):
    for _n, (_nm, _o) in enumerate([("eq", "=="), ("ne", "!="), ("lt", "<"),
                                    ("gt", ">"), ("le", "<="),
                                    ("ge", ">=")]):
        num(_base + _n, "%s.%s" % (_t, _nm), [_t, _t], "i32",
            "r = a %s b;" % _o, cls="float")

# ----------------------------------------------------- integer arithmetic
for _t, _base, _w in (("i32", 0x67, 32), ("i64", 0x79, 64)):
    _u, _s = "u%d" % _w, "s%d" % _w
    _min = "((%s)1 << %d)" % (_u, _w - 1)
    _l = "" if _w == 32 else "ll"
    _two = []
    if _w == 64:
        _clz = ["r = a == 0 ? 64 : (u64)__builtin_clzll(a);",
                "u32 h = (u32)(a >> 32), l = (u32)a; if (a == 0) r = 64; "
                "else if (h == 0) r = 32 + __builtin_clz(l); "
                "else r = __builtin_clz(h);"]
        _ctz = ["r = a == 0 ? 64 : (u64)__builtin_ctzll(a);",
                "u32 h = (u32)(a >> 32), l = (u32)a; if (a == 0) r = 64; "
                "else if (l == 0) r = 32 + __builtin_ctz(h); "
                "else r = __builtin_ctz(l);"]
        _pop = ["r = (u64)__builtin_popcountll(a);",
                "r = (u32)(__builtin_popcount((u32)a) + "
                "__builtin_popcount((u32)(a >> 32)));"]
    else:
        _clz = ["r = a == 0 ? 32 : (u32)__builtin_clz(a);"]
        _ctz = ["r = a == 0 ? 32 : (u32)__builtin_ctz(a);"]
        _pop = ["r = (u32)__builtin_popcount(a);"]
    num(_base, _t + ".clz", [_t], _t, *_clz)
    num(_base + 1, _t + ".ctz", [_t], _t, *_ctz)
    num(_base + 2, _t + ".popcnt", [_t], _t, *_pop)
    num(_base + 3, _t + ".add", [_t, _t], _t, "r = a + b;")
    num(_base + 4, _t + ".sub", [_t, _t], _t, "r = a - b;")
    num(_base + 5, _t + ".mul", [_t, _t], _t, "r = a * b;")
    _dz = "if (b == 0) TRAP(TRAP_DIV_BY_ZERO); "
    num(_base + 6, _t + ".div_s", [_t, _t], _t,
        _dz + "if (a == %s && b == (%s)-1) TRAP(TRAP_INTEGER_OVERFLOW); "
        "r = (%s)((%s)a / (%s)b);" % (_min, _u, _u, _s, _s))
    num(_base + 7, _t + ".div_u", [_t, _t], _t, _dz + "r = a / b;")
    num(_base + 8, _t + ".rem_s", [_t, _t], _t,
        _dz + "if (a == %s && b == (%s)-1) r = 0; "
        "else r = (%s)((%s)a %% (%s)b);" % (_min, _u, _u, _s, _s),
        _dz + "if (b == (%s)-1) r = 0; "
        "else r = (%s)((%s)a %% (%s)b);" % (_u, _u, _s, _s))
    num(_base + 9, _t + ".rem_u", [_t, _t], _t, _dz + "r = a % b;")
    num(_base + 10, _t + ".and", [_t, _t], _t, "r = a & b;")
    num(_base + 11, _t + ".or", [_t, _t], _t, "r = a | b;")
    num(_base + 12, _t + ".xor", [_t, _t], _t, "r = a ^ b;")
    num(_base + 13, _t + ".shl", [_t, _t], _t, "r = a << (b & %d);" % (_w - 1))
    num(_base + 14, _t + ".shr_s", [_t, _t], _t,
        "r = (%s)((%s)a >> (b & %d));" % (_u, _s, _w - 1))
    num(_base + 15, _t + ".shr_u", [_t, _t], _t,
        "r = a >> (b & %d);" % (_w - 1))
    num(_base + 16, _t + ".rotl", [_t, _t], _t,
        "r = __builtin_rotateleft%d(a, b);" % _w)
    num(_base + 17, _t + ".rotr", [_t, _t], _t,
        "r = __builtin_rotateright%d(a, b);" % _w)


# ------------------------------------------------------- float arithmetic
def fmin(w, which):
    """NaN if either is; of two equal ones the (positive/negative) zero"""
    sfx = "f" if w == 32 else ""
    a, b = ("a", "b") if which == "min" else ("b", "a")
    cmp = "<" if which == "min" else ">"
    nan = "__builtin_nan%s(\"\")" % sfx
    sign = "(X(a) >> %d)" % (w - 1)
    one = ("if (a != a || b != b) R = %s; else if (a == b) "
           "R = %s ? %s : %s; else R = __builtin_f%s%s(a, b);" %
           (nan, sign, a, b, which, sfx))
    two = ("if (a != a || b != b) R = %s; else if (a == b) "
           "R = %s ? %s : %s; else R = a %s b ? a : b;" %
           (nan, sign, a, b, cmp))
    three = one.replace("R = %s;" % nan, "R = a + b;")
    return [x.replace("X(a)", "bits%d(a)" % w) for x in (one, two, three)]


def r(s):
    return s.replace("R =", "r =")


for _t, _base, _w in (("f32", 0x8b, 32), ("f64", 0x99, 64)):
    _f = "f" if _w == 32 else ""
    num(_base, _t + ".abs", [_t], _t, "r = __builtin_fabs%s(a);" % _f,
        cls="float")
    num(_base + 1, _t + ".neg", [_t], _t, "r = -a;", cls="float")
    num(_base + 2, _t + ".ceil", [_t], _t, "r = __builtin_ceil%s(a);" % _f,
        cls="float")
    num(_base + 3, _t + ".floor", [_t], _t, "r = __builtin_floor%s(a);" % _f,
        cls="float")
    num(_base + 4, _t + ".trunc", [_t], _t, "r = __builtin_trunc%s(a);" % _f,
        cls="float")
    num(_base + 5, _t + ".nearest", [_t], _t, "r = __builtin_rint%s(a);" % _f,
        cls="float")
    num(_base + 6, _t + ".sqrt", [_t], _t, "r = __builtin_sqrt%s(a);" % _f,
        cls="float")
    for _n, _o in enumerate("+-*/"):
        num(_base + 7 + _n, _t + "." + ["add", "sub", "mul", "div"][_n],
            [_t, _t], _t, "r = a %s b;" % _o, cls="float")
    num(_base + 11, _t + ".min", [_t, _t], _t,
        *[r(x) for x in fmin(_w, "min")], cls="float")
    num(_base + 12, _t + ".max", [_t, _t], _t,
        *[r(x) for x in fmin(_w, "max")], cls="float")
    num(_base + 13, _t + ".copysign", [_t, _t], _t,
        "r = __builtin_copysign%s(a, b);" % _f, cls="float")

# ------------------------------------------------------------ conversions
num(0xa7, "i32.wrap_i64", ["i64"], "i32", "r = (u32)a;")
num(0xac, "i64.extend_i32_s", ["i32"], "i64", "r = (u64)(s64)(s32)a;")
num(0xad, "i64.extend_i32_u", ["i32"], "i64", "r = (u64)a;")


def trunc(fw, iw, sg):
    """the integer must be representable after rounding towards zero"""
    f = "f" if fw == 32 else ""
    t = "s%d" % iw if sg == "s" else "u%d" % iw
    p = "0x1p%d%s" % (iw - (sg == "s"), f)
    if sg == "s":
        lo = "-%s" % p
        # the smallest magnitude that does not fit
        if fw == 64 and iw == 32:
            small = "a <= -2147483649.0"
        else:
            small = "a < %s" % lo
    else:
        small = "a <= -1.0%s" % f
    big = "a >= %s" % p
    return ("if (a != a) TRAP(TRAP_INVALID_CONVERSION_TO_INTEGER); "
            "if (%s) TRAP(TRAP_INTEGER_OVERFLOW); "
            "if (%s) TRAP(TRAP_INTEGER_OVERFLOW); "
            "r = (u%d)(%s)__builtin_trunc%s(a);" % (small, big, iw, t, f))


def truncsat(fw, iw, sg, A="a", R="r"):
    f = "f" if fw == 32 else ""
    u = "u%d" % iw
    t = "s%d" % iw if sg == "s" else u
    p = "0x1p%d%s" % (iw - (sg == "s"), f)
    mx = "(((%s)1 << %d) - 1)" % (u, iw - 1) if sg == "s" else "((%s)-1)" % u
    mn = "((%s)1 << %d)" % (u, iw - 1) if sg == "s" else "0"
    lo = "-%s" % p if sg == "s" else "0"
    conv = "(%s)(%s)__builtin_trunc%s(%s)" % (u, t, f, A)
    out = []
    # at and below the lowest value / at and above the highest
    for le, ge in (("<=", ">="), ("<", ">=")):
        hi = p
        out.append("if (%s != %s) %s = 0; else if (%s %s %s) %s = %s; "
                   "else if (%s %s %s) %s = %s; else %s = %s;" %
                   (A, A, R, A, le, lo, R, mn, A, ge, hi, R, mx, R, conv))
    if fw == 64 and iw == 32:
        # the limit itself is representable
        m = "2147483647.0" if sg == "s" else "4294967295.0"
        for le in ("<=", "<"):
            for ge in (">=", ">"):
                out.append(
                    "if (%s != %s) %s = 0; else if (%s %s %s) %s = %s; "
                    "else if (%s %s %s) %s = %s; else %s = %s;" %
                    (A, A, R, A, le, lo, R, mn, A, ge, m, R, mx, R, conv))
    return out


_trunc = [(0xa8, "i32", "f32", "s"), (0xa9, "i32", "f32", "u"),
          (0xaa, "i32", "f64", "s"), (0xab, "i32", "f64", "u"),
          (0xae, "i64", "f32", "s"), (0xaf, "i64", "f32", "u"),
          (0xb0, "i64", "f64", "s"), (0xb1, "i64", "f64", "u")]
for _n, (_c, _i, _f, _s) in enumerate(_trunc):
    num(_c, "%s.trunc_%s_%s" % (_i, _f, _s), [_f], _i,
        trunc(int(_f[1:]), int(_i[1:]), _s), cls="float")
    num(_n, "%s.trunc_sat_%s_%s" % (_i, _f, _s), [_f], _i,
        *truncsat(int(_f[1:]), int(_i[1:]), _s), cls="float", prefix=0xfc)
for _c, _f, _i, _s in [(0xb2, "f32", "i32", "s"), (0xb3, "f32", "i32", "u"),
                       (0xb4, "f32", "i64", "s"), (0xb5, "f32", "i64", "u"),
                       (0xb7, "f64", "i32", "s"), (0xb8, "f64", "i32", "u"),
                       (0xb9, "f64", "i64", "s"), (0xba, "f64", "i64", "u")]:
    num(_c, "%s.convert_%s_%s" % (_f, _i, _s), [_i], _f,
        "r = (%s)(%s%s)a;" % (_f, _s, _i[1:]), cls="float")
num(0xb6, "f32.demote_f64", ["f64"], "f32", "r = (f32)a;", cls="float")
num(0xbb, "f64.promote_f32", ["f32"], "f64", "r = (f64)a;", cls="float")
for _c, _d, _s in [(0xbc, "i32", "f32"), (0xbd, "i64", "f64"),
                   (0xbe, "f32", "i32"), (0xbf, "f64", "i64")]:
    num(_c, "%s.reinterpret_%s" % (_d, _s), [_s], _d,
        "__builtin_memcpy(&r, &a, sizeof(r));", cls="float")
for _c, _t, _b in [(0xc0, "i32", 8), (0xc1, "i32", 16), (0xc2, "i64", 8),
                   (0xc3, "i64", 16), (0xc4, "i64", 32)]:
    num(_c, "%s.extend%d_s" % (_t, _b), [_t], _t,
        "r = (u%s)(s%s)(s%d)a;" % (_t[1:], _t[1:], _b))

# ------------------------------------------------------------------- bulk
op(0xfc, 0x08, "memory.init", ["u32", "memidx"], ["i32", "i32", "i32"], [],
   "memory", "u32 seg = read_leb_u32_nocheck(&p); MEMIDX; "
   "int ret = memory_init(ctx, memidx, seg, a, b, c); if (ret) FAIL(ret);")
op(0xfc, 0x09, "data.drop", ["u32"], [], [], "memory",
   "u32 seg = read_leb_u32_nocheck(&p); data_drop(ctx, seg);")
op(0xfc, 0x0a, "memory.copy", ["memidx", "memidx"], ["i32", "i32", "i32"],
   [], "memory2")
op(0xfc, 0x0b, "memory.fill", ["memidx"], ["i32", "i32", "i32"], [],
   "memory", "MEMIDX; void *d; int ret = memory_getptr(ctx, memidx, a, 0, c, "
   "&d); if (ret) FAIL(ret); __builtin_memset(d, (u8)b, c);")
op(0xfc, 0x0c, "table.init", ["u32", "u32"], ["i32", "i32", "i32"], [],
   "table", "u32 seg = read_leb_u32_nocheck(&p); "
   "u32 t = read_leb_u32_nocheck(&p); "
   "int ret = table_init(ctx, t, seg, a, b, c); if (ret) FAIL(ret);")
op(0xfc, 0x0d, "elem.drop", ["u32"], [], [], "table",
   "u32 seg = read_leb_u32_nocheck(&p); elem_drop(ctx, seg);")
op(0xfc, 0x0e, "table.copy", ["u32", "u32"], ["i32", "i32", "i32"], [],
   "table2")
op(0xfc, 0x0f, "table.grow", ["u32"], C, ["i32"], "table2")
op(0xfc, 0x10, "table.size", ["u32"], [], ["i32"], "table2")
op(0xfc, 0x11, "table.fill", ["u32"], C, [], "table2")

# ------------------------------------------------------------------- SIMD
S = 0xfd


def v1(code, name, body, params=("v128",), result="v128", imm=(), cls="simd",
       **kw):
    op(S, code, name, list(imm), list(params), [result] if result else [],
       cls, body, **kw)


def lanes(code, name, n, rt, expr, params=("v128",), at=None, bt=None, **kw):
    """r.rt[i] = expr, with x, y the i-th lanes of a and b"""
    at = at or rt
    bt = bt or at
    decl = "%s x = a.%s[i]; " % (at, at)
    if len(params) > 1 and params[1] == "v128":
        decl += "%s y = b.%s[i]; " % (bt, bt)
    v1(code, name, ["for (int i = 0; i < %d; i++) { %s%s }" % (n, decl, e)
                    for e in ([expr] if isinstance(expr, str) else expr)],
       params, **kw)


VV = ("v128", "v128")


def vload(code, name, bits, expr):
    load(S, code, name, "v128", bits, expr)


vload(0x00, "v128.load", 128, "__builtin_memcpy(&r, d, 16);")
for _n, (_b, _c) in enumerate([(8, 8), (16, 4), (32, 2)]):
    for _k, _s in enumerate("su"):
        vload(0x01 + 2 * _n + _k, "v128.load%dx%d_%s" % (_b, _c, _s), 64,
              "%s%d x[%d]; __builtin_memcpy(x, d, 8); for (int j = 0; j < %d; "
              "j++) r.u%d[j] = (u%d)(%s%d)x[j];" %
              (_s, _b, _c, _c, 2 * _b, 2 * _b, _s, 2 * _b))
for _n, _b in enumerate((8, 16, 32, 64)):
    vload(0x07 + _n, "v128.load%d_splat" % _b, _b,
          "u%d x; __builtin_memcpy(&x, d, %d); for (int j = 0; j < %d; j++) "
          "r.u%d[j] = x;" % (_b, _b // 8, 128 // _b, _b))
store(S, 0x0b, "v128.store", "v128", 128, "__builtin_memcpy(d, &b, 16);")
v1(0x0c, "v128.const", "__builtin_memcpy(&r, p, 16); p += 16;", params=(),
   imm=["v128"], const=True)
v1(0x0d, "i8x16.shuffle",
   ["u8 l[16]; for (int i = 0; i < 16; i++) l[i] = *p++; "
    "for (int i = 0; i < 16; i++) { u8 s = l[i]; "
    "if (s < 16) r.u8[i] = a.u8[s]; else r.u8[i] = b.u8[s - 16]; }",
    "u8 l[16]; u8 ab[32]; for (int i = 0; i < 16; i++) l[i] = *p++; "
    "__builtin_memcpy(ab, &a, 16); __builtin_memcpy(ab + 16, &b, 16); "
    "for (int i = 0; i < 16; i++) r.u8[i] = ab[l[i]];"],
   VV, imm=["lane<32"] * 16)
v1(0x0e, "i8x16.swizzle",
   "for (int i = 0; i < 16; i++) { u8 s = b.u8[i]; "
   "if (s < 16) r.u8[i] = a.u8[s]; else r.u8[i] = 0; }", VV)
for _n, (_sh, _t, _l, _c) in enumerate([
        ("i8x16", "i32", "u8", 16), ("i16x8", "i32", "u16", 8),
        ("i32x4", "i32", "u32", 4), ("i64x2", "i64", "u64", 2),
        ("f32x4", "f32", "f32", 4), ("f64x2", "f64", "f64", 2)]):
    v1(0x0f + _n, _sh + ".splat",
       "for (int i = 0; i < %d; i++) r.%s[i] = (%s)a;" % (_c, _l, _l), (_t,))
for _c, _sh, _x, _t, _l, _n in [
        (0x15, "i8x16", "extract_lane_s", "i32", "s8", 16),
        (0x16, "i8x16", "extract_lane_u", "i32", "u8", 16),
        (0x18, "i16x8", "extract_lane_s", "i32", "s16", 8),
        (0x19, "i16x8", "extract_lane_u", "i32", "u16", 8),
        (0x1b, "i32x4", "extract_lane", "i32", "u32", 4),
        (0x1d, "i64x2", "extract_lane", "i64", "u64", 2),
        (0x1f, "f32x4", "extract_lane", "f32", "f32", 4),
        (0x21, "f64x2", "extract_lane", "f64", "f64", 2)]:
    _cast = "(u32)(s32)" if _l in ("s8", "s16") else ""
    v1(_c, "%s.%s" % (_sh, _x), "u8 l = *p++; r = %sa.%s[l];" % (_cast, _l),
       result=_t, imm=["lane<%d" % _n])
for _c, _sh, _t, _l, _n in [
        (0x17, "i8x16", "i32", "u8", 16), (0x1a, "i16x8", "i32", "u16", 8),
        (0x1c, "i32x4", "i32", "u32", 4), (0x1e, "i64x2", "i64", "u64", 2),
        (0x20, "f32x4", "f32", "f32", 4), (0x22, "f64x2", "f64", "f64", 2)]:
    v1(_c, _sh + ".replace_lane",
       "u8 l = *p++; r = a; r.%s[l] = (%s)b;" % (_l, _l), ("v128", _t),
       imm=["lane<%d" % _n])
for _base, _sh, _w, _c in [(0x23, "i8x16", 8, 16), (0x2d, "i16x8", 16, 8),
                           (0x37, "i32x4", 32, 4)]:
    for _n, (_nm, _o) in enumerate(REL):
        _k = "s" if _nm.endswith("_s") else "u"
        lanes(_base + _n, "%s.%s" % (_sh, _nm), _c, "u%d" % _w,
              "r.u%d[i] = x %s y ? (u%d)-1 : 0;" % (_w, _o, _w), VV,
              at="%s%d" % (_k, _w))
for _n, (_nm, _o) in enumerate([("eq", "=="), ("ne", "!="), ("lt_s", "<"),
                                ("gt_s", ">"), ("le_s", "<="),
                                ("ge_s", ">=")]):
    lanes(0xd6 + _n, "i64x2." + _nm, 2, "u64",
          "r.u64[i] = x %s y ? (u64)-1 : 0;" % _o, VV, at="s64")
for _base, _sh, _w, _c in [(0x41, "f32x4", 32, 4), (0x47, "f64x2", 64, 2)]:
    for _n, (_nm, _o) in enumerate([("eq", "=="), ("ne", "!="), ("lt", "<"),
                                    ("gt", ">"), ("le", "<="),
                                    ("ge", ">=")]):
        lanes(_base + _n, "%s.%s" % (_sh, _nm), _c, "u%d" % _w,
              "r.u%d[i] = x %s y ? (u%d)-1 : 0;" % (_w, _o, _w), VV,
              at="f%d" % _w)
lanes(0x4d, "v128.not", 2, "u64", "r.u64[i] = ~x;")
lanes(0x4e, "v128.and", 2, "u64", "r.u64[i] = x & y;", VV)
lanes(0x4f, "v128.andnot", 2, "u64", "r.u64[i] = x & ~y;", VV)
lanes(0x50, "v128.or", 2, "u64", "r.u64[i] = x | y;", VV)
lanes(0x51, "v128.xor", 2, "u64", "r.u64[i] = x ^ y;", VV)
v1(0x52, "v128.bitselect",
   ["for (int i = 0; i < 2; i++) r.u64[i] = (a.u64[i] & c.u64[i]) | "
    "(b.u64[i] & ~c.u64[i]);",
    "for (int i = 0; i < 2; i++) r.u64[i] = ((a.u64[i] ^ b.u64[i]) & "
    "c.u64[i]) ^ b.u64[i];"],
   ("v128", "v128", "v128"))
_any = ["r = 0; for (int i = 0; i < %d; i++) if (a.u%d[i] != 0) r = 1;"
        % (128 // _b, _b) for _b in (8, 16, 32, 64)]
v1(0x53, "v128.any_true", _any + [
    "r = (a.u64[0] | a.u64[1]) != 0;"], result="i32")
for _n, _b in enumerate((8, 16, 32, 64)):
    _al = _n
    op(S, 0x54 + _n, "v128.load%d_lane" % _b,
       ["memarg<=%d" % _al, "lane<%d" % (128 // _b)], ["i32", "v128"],
       ["v128"], "memory",
       ["MEMARG; u8 l = *p++; void *d; MEMPTR(d, a, %d); u%d x; "
        "__builtin_memcpy(&x, d, %d); r = b; r.u%d[l] = x;"
        % (_b // 8, _b, _b // 8, _b)])
    op(S, 0x58 + _n, "v128.store%d_lane" % _b,
       ["memarg<=%d" % _al, "lane<%d" % (128 // _b)], ["i32", "v128"],
       [], "memory",
       ["MEMARG; u8 l = *p++; void *d; MEMPTR(d, a, %d); "
        "__builtin_memcpy(d, &b.u%d[l], %d);" % (_b // 8, _b, _b // 8)])
vload(0x5c, "v128.load32_zero", 32,
      "u32 x; __builtin_memcpy(&x, d, 4); r.u64[0] = x; r.u64[1] = 0;")
vload(0x5d, "v128.load64_zero", 64,
      "u64 x; __builtin_memcpy(&x, d, 8); r.u64[0] = x; r.u64[1] = 0;")
v1(0x5e, "f32x4.demote_f64x2_zero",
   "r.f32[0] = (f32)a.f64[0]; r.f32[1] = (f32)a.f64[1]; r.u64[1] = 0;")
v1(0x5f, "f64x2.promote_low_f32x4",
   "r.f64[0] = (f64)a.f32[0]; r.f64[1] = (f64)a.f32[1];")


def bitmask(w, n):
    return ["r = 0; for (int i = 0; i < %d; i++) r |= (u32)(a.u%d[i] >> %d) "
            "<< i;" % (n, w, w - 1),
            "r = 0; for (int i = 0; i < %d; i++) if (a.s%d[i] < 0) "
            "r |= (u32)1 << i;" % (n, w)]


def alltrue(w, n):
    return ["r = 1; for (int i = 0; i < %d; i++) if (a.u%d[i] == 0) r = 0;"
            % (n, w)]


def sat(w, sg, e):
    mx = (1 << (w - 1)) - 1 if sg == "s" else (1 << w) - 1
    mn = -(1 << (w - 1)) if sg == "s" else 0
    return ("s32 t = %s; if (t > %d) t = %d; if (t < %d) t = %d; "
            "r.u%d[i] = (u%d)t;" % (e, mx, mx, mn, mn, w, w))


for _sh, _w, _n, _abs, _all, _shl, _add, _sub in [
        ("i8x16", 8, 16, 0x60, 0x63, 0x6b, 0x6e, 0x71),
        ("i16x8", 16, 8, 0x80, 0x83, 0x8b, 0x8e, 0x91),
        ("i32x4", 32, 4, 0xa0, 0xa3, 0xab, 0xae, 0xb1),
        ("i64x2", 64, 2, 0xc0, 0xc3, 0xcb, 0xce, 0xd1)]:
    _u, _s = "u%d" % _w, "s%d" % _w
    lanes(_abs, _sh + ".abs", _n, _u,
          "r.%s[i] = (%s)(x < 0 ? -(u64)(s64)x : (u64)(s64)x);" % (_u, _u),
          at=_s)
    lanes(_abs + 1, _sh + ".neg", _n, _u,
          "r.%s[i] = (%s)(0 - (u64)x);" % (_u, _u))
    v1(_all, _sh + ".all_true", alltrue(_w, _n), result="i32")
    v1(_all + 1, _sh + ".bitmask", bitmask(_w, _n), result="i32")
    for _k, (_nm, _e, _at) in enumerate([
            ("shl", "(%s)(x << (b & %d))", _u),
            ("shr_s", "(%s)(x >> (b & %d))", _s),
            ("shr_u", "(%s)(x >> (b & %d))", _u)]):
        lanes(_shl + _k, "%s.%s" % (_sh, _nm), _n, _u,
              "r.%s[i] = %s;" % (_u, _e % (_u, _w - 1)), ("v128", "i32"),
              at=_at)
    lanes(_add, _sh + ".add", _n, _u, "r.%s[i] = (%s)(x + y);" % (_u, _u), VV)
    lanes(_sub, _sh + ".sub", _n, _u, "r.%s[i] = (%s)(x - y);" % (_u, _u), VV)
    if _w <= 16:
        for _k, _sg in enumerate("su"):
            lanes(_add + 1 + _k, "%s.add_sat_%s" % (_sh, _sg), _n, _u,
                  sat(_w, _sg, "(s32)x + (s32)y"), VV, at="%s%d" % (_sg, _w))
            lanes(_sub + 1 + _k, "%s.sub_sat_%s" % (_sh, _sg), _n, _u,
                  sat(_w, _sg, "(s32)x - (s32)y"), VV, at="%s%d" % (_sg, _w))
        lanes(0x7b if _w == 8 else 0x9b, _sh + ".avgr_u", _n, _u,
              "r.%s[i] = (%s)(((u32)x + (u32)y + 1) >> 1);" % (_u, _u), VV)
    if _w >= 16:
        lanes({16: 0x95, 32: 0xb5, 64: 0xd5}[_w], _sh + ".mul", _n, _u,
              "r.%s[i] = (%s)((u64)x * (u64)y);" % (_u, _u), VV)
    if _w <= 32:
        _mb = {8: 0x76, 16: 0x96, 32: 0xb6}[_w]
        for _k, (_nm, _o, _sg) in enumerate([
                ("min_s", "<", "s"), ("min_u", "<", "u"),
                ("max_s", ">", "s"), ("max_u", ">", "u")]):
            lanes(_mb + _k, "%s.%s" % (_sh, _nm), _n, _u,
                  "r.%s[i] = (%s)(x %s y ? x : y);" % (_u, _u, _o), VV,
                  at="%s%d" % (_sg, _w))
lanes(0x62, "i8x16.popcnt", 16, "u8", "r.u8[i] = (u8)__builtin_popcount(x);")
for _base, _sh, _w, _n, _src in [(0x65, "i8x16", 8, 16, "i16x8"),
                                 (0x85, "i16x8", 16, 8, "i32x4")]:
    for _k, _sg in enumerate("su"):
        v1(_base + _k, "%s.narrow_%s_%s" % (_sh, _src, _sg),
           "for (int i = 0; i < %d; i++) { s%d q = i < %d ? a.s%d[i] : "
           "b.s%d[i - %d]; %s }" %
           (_n, 2 * _w, _n // 2, 2 * _w, 2 * _w, _n // 2,
            sat(_w, _sg, "q")), VV)
for _sh, _w, _n, _cs in [("f32x4", 32, 4, (0x67, 0x68, 0x69, 0x6a)),
                         ("f64x2", 64, 2, (0x74, 0x75, 0x7a, 0x94))]:
    _f = "f" if _w == 32 else ""
    for _c, _nm in zip(_cs, ("ceil", "floor", "trunc", "nearest")):
        lanes(_c, "%s.%s" % (_sh, _nm), _n, "f%d" % _w,
              "r.f%d[i] = __builtin_%s%s(x);" %
              (_w, "rint" if _nm == "nearest" else _nm, _f))
    _b = {32: 0xe0, 64: 0xec}[_w]
    lanes(_b, _sh + ".abs", _n, "f%d" % _w,
          "r.f%d[i] = __builtin_fabs%s(x);" % (_w, _f))
    lanes(_b + 1, _sh + ".neg", _n, "f%d" % _w, "r.f%d[i] = -x;" % _w)
    lanes(_b + 3, _sh + ".sqrt", _n, "f%d" % _w,
          "r.f%d[i] = __builtin_sqrt%s(x);" % (_w, _f))
    for _k, (_nm, _o) in enumerate([("add", "+"), ("sub", "-"), ("mul", "*"),
                                    ("div", "/")]):
        lanes(_b + 4 + _k, "%s.%s" % (_sh, _nm), _n, "f%d" % _w,
              "r.f%d[i] = x %s y;" % (_w, _o), VV)
    for _k, _nm in ((8, "min"), (9, "max")):
        lanes(_b + _k, "%s.%s" % (_sh, _nm), _n, "f%d" % _w,
              ["f%d a = x, b = y, z; %s r.f%d[i] = z;" %
               (_w, e.replace("R =", "z ="), _w)
               for e in fmin(_w, _nm)], VV)
    lanes(_b + 10, _sh + ".pmin", _n, "f%d" % _w,
          "r.f%d[i] = y < x ? y : x;" % _w, VV)
    lanes(_b + 11, _sh + ".pmax", _n, "f%d" % _w,
          "r.f%d[i] = x < y ? y : x;" % _w, VV)
for _c, _sh, _w, _n, _src in [(0x7c, "i16x8", 16, 8, "i8x16"),
                              (0x7e, "i32x4", 32, 4, "i16x8")]:
    for _k, _sg in enumerate("su"):
        v1(_c + _k, "%s.extadd_pairwise_%s_%s" % (_sh, _src, _sg),
           "for (int i = 0; i < %d; i++) r.u%d[i] = (u%d)((s32)a.%s%d[2 * i] "
           "+ (s32)a.%s%d[2 * i + 1]);" % (_n, _w, _w, _sg, _w // 2, _sg,
                                           _w // 2))
for _c, _sh, _w, _n, _src in [(0x87, "i16x8", 16, 8, "i8x16"),
                              (0xa7, "i32x4", 32, 4, "i16x8"),
                              (0xc7, "i64x2", 64, 2, "i32x4")]:
    for _k, (_hl, _sg) in enumerate([("low", "s"), ("high", "s"),
                                     ("low", "u"), ("high", "u")]):
        _o = _n if _hl == "high" else 0
        v1(_c + _k, "%s.extend_%s_%s_%s" % (_sh, _hl, _src, _sg),
           "for (int i = 0; i < %d; i++) r.u%d[i] = (u%d)(%s%d)a.%s%d[i + %d];"
           % (_n, _w, _w, _sg, _w, _sg, _w // 2, _o))
for _c, _sh, _w, _n, _src in [(0x9c, "i16x8", 16, 8, "i8x16"),
                              (0xbc, "i32x4", 32, 4, "i16x8"),
                              (0xdc, "i64x2", 64, 2, "i32x4")]:
    for _k, (_hl, _sg) in enumerate([("low", "s"), ("high", "s"),
                                     ("low", "u"), ("high", "u")]):
        _o = _n if _hl == "high" else 0
        v1(_c + _k, "%s.extmul_%s_%s_%s" % (_sh, _hl, _src, _sg),
           "for (int i = 0; i < %d; i++) r.u%d[i] = (u%d)((u64)(%s64)"
           "a.%s%d[i + %d] * (u64)(%s64)b.%s%d[i + %d]);" %
           (_n, _w, _w, _sg, _sg, _w // 2, _o, _sg, _sg, _w // 2, _o), VV)
v1(0x82, "i16x8.q15mulr_sat_s",
   "for (int i = 0; i < 8; i++) { s32 t = ((s32)a.s16[i] * (s32)b.s16[i] + "
   "0x4000) >> 15; if (t > 32767) t = 32767; if (t < -32768) t = -32768; "
   "r.u16[i] = (u16)t; }", VV)
v1(0xba, "i32x4.dot_i16x8_s",
   "for (int i = 0; i < 4; i++) r.u32[i] = (u32)((s32)a.s16[2 * i] * "
   "(s32)b.s16[2 * i]) + (u32)((s32)a.s16[2 * i + 1] * "
   "(s32)b.s16[2 * i + 1]);", VV)
for _k, _sg in enumerate("su"):
    v1(0xf8 + _k, "i32x4.trunc_sat_f32x4_" + _sg,
       ["for (int i = 0; i < 4; i++) { f32 x = a.f32[i]; u32 z; %s "
        "r.u32[i] = z; }" % e for e in truncsat(32, 32, _sg, "x", "z")])
    v1(0xfa + _k, "f32x4.convert_i32x4_" + _sg,
       "for (int i = 0; i < 4; i++) r.f32[i] = (f32)a.%s32[i];" % _sg)
    v1(0xfc + _k, "i32x4.trunc_sat_f64x2_%s_zero" % _sg,
       ["for (int i = 0; i < 2; i++) { f64 x = a.f64[i]; u32 z; %s "
        "r.u32[i] = z; } r.u64[1] = 0;" % e
        for e in truncsat(64, 32, _sg, "x", "z")])
    v1(0xfe + _k, "f64x2.convert_low_i32x4_" + _sg,
       "for (int i = 0; i < 2; i++) r.f64[i] = (f64)a.%s32[i];" % _sg)

# ---------------------------------------------------------------- threads
T = 0xfe
op(T, 0x00, "memory.atomic.notify", ["memarg=2"], ["i32", "i32"], ["i32"],
   "atomic", "MEMARG; u32 n; int ret = memory_notify(ctx, memidx, a, offset, "
   "b, &n); if (ret) FAIL(ret); r = n;")
op(T, 0x01, "memory.atomic.wait32", ["memarg=2"], ["i32", "i32", "i64"],
   ["i32"], "atomic",
   "MEMARG; u32 n; int ret = memory_wait(ctx, memidx, a, offset, b, &n, "
   "(s64)c, 0); if (ret) FAIL(ret); r = n;")
op(T, 0x02, "memory.atomic.wait64", ["memarg=3"], ["i32", "i64", "i64"],
   ["i32"], "atomic",
   "MEMARG; u32 n; int ret = memory_wait(ctx, memidx, a, offset, b, &n, "
   "(s64)c, 1); if (ret) FAIL(ret); r = n;")
op(T, 0x03, "atomic.fence", ["zero"], [], [], "atomic",
   "p++; __atomic_thread_fence(5);")
_al = {8: 0, 16: 1, 32: 2, 64: 3}
_acc = [("i32", 32, ""), ("i64", 64, ""), ("i32", 8, "8"), ("i32", 16, "16"),
        ("i64", 8, "8"), ("i64", 16, "16"), ("i64", 32, "32")]
for _n, (_t, _b, _x) in enumerate(_acc):
    op(T, 0x10 + _n, "%s.atomic.load%s" % (_t, _x + "_u" if _x else ""),
       ["memarg=%d" % _al[_b]], ["i32"], [_t], "atomic",
       "MEMARG; void *d; AMEMPTR(d, a, %d); r = __atomic_load_n((u%d *)d, 5);"
       % (_b // 8, _b))
    op(T, 0x17 + _n, "%s.atomic.store%s" % (_t, _x), ["memarg=%d" % _al[_b]],
       ["i32", _t], [], "atomic",
       "MEMARG; void *d; AMEMPTR(d, a, %d); "
       "__atomic_store_n((u%d *)d, (u%d)b, 5);" % (_b // 8, _b, _b))
for _k, (_nm, _e, _at) in enumerate([
        ("add", "o + b", "add"), ("sub", "o - b", "sub"),
        ("and", "o & b", "and"), ("or", "o | b", "or"),
        ("xor", "o ^ b", "xor"), ("xchg", "b", None)]):
    for _n, (_t, _b, _x) in enumerate(_acc):
        _pre = ("MEMARG; void *d; AMEMPTR(d, a, %d); " % (_b // 8))
        _w = _t[1:]
        op(T, 0x1e + 7 * _k + _n,
           "%s.atomic.rmw%s.%s%s" % (_t, _x, _nm, "_u" if _x else ""),
           ["memarg=%d" % _al[_b]], ["i32", _t], [_t], "atomic",
           [_pre + "u%d ol; u%s o; do { ol = __atomic_load_n((u%d *)d, 5); "
            "o = ol; u%d nl = (u%d)(%s); if (__atomic_compare_exchange_n("
            "(u%d *)d, &ol, nl, 0, 5, 5)) break; } while (1); r = o;" %
            (_b, _w, _b, _b, _b, _e, _b),
            _pre + ("r = __atomic_fetch_%s((u%d *)d, (u%d)b, 5);" %
                    (_at, _b, _b) if _at else
                    "r = __atomic_exchange_n((u%d *)d, (u%d)b, 5);" %
                    (_b, _b)),
            _pre + "u%d ol = __atomic_load_n((u%d *)d, 5); u%s o; "
            "do { o = ol; } while (!__atomic_compare_exchange_n((u%d *)d, "
            "&ol, (u%d)(%s), 0, 5, 5)); r = o;" %
            (_b, _b, _w, _b, _b, _e)])
for _n, (_t, _b, _x) in enumerate(_acc):
    _w = _t[1:]
    op(T, 0x48 + _n, "%s.atomic.rmw%s.cmpxchg%s" % (_t, _x,
                                                    "_u" if _x else ""),
       ["memarg=%d" % _al[_b]], ["i32", _t, _t], [_t], "atomic",
       ["MEMARG; void *d; AMEMPTR(d, a, %d); u%d t = (u%d)b; u%d o; "
        "if (t == b) { __atomic_compare_exchange_n((u%d *)d, &t, (u%d)c, 0, "
        "5, 5); o = t; } else { o = __atomic_load_n((u%d *)d, 5); } r = o;" %
        (_b // 8, _b, _b, _b, _b, _b, _b)])


PRELUDE = r"""
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32;
typedef unsigned long u64; typedef signed char s8; typedef short s16;
typedef int s32; typedef long s64; typedef float f32; typedef double f64;
typedef union { u8 u8[16]; u16 u16[8]; u32 u32[4]; u64 u64[2]; s8 s8[16];
    s16 s16[8]; s32 s32[4]; s64 s64[2]; f32 f32[4]; f64 f64[2]; } V;
#define P const unsigned char *
int fetch_exec_next_insn(P, u32 *, void *);
int trap_with_id(void *, int, const char *, ...);
u32 read_leb_u32_nocheck(P *);
s32 read_leb_i32_nocheck(P *);
s64 read_leb_i64_nocheck(P *);
int memory_getptr(void *, u32, u32, u32, u32, void **);
int memory_atomic_getptr(void *, u32, u32, u32, u32, void **, void **);
int memory_init(void *, u32, u32, u32, u32, u32);
int memory_notify(void *, u32, u32, u32, u32, u32 *);
int memory_wait(void *, u32, u32, u32, u64, u32 *, s64, _Bool);
u32 memory_grow2(void *, u32, u32);
void data_drop(void *, u32);
void elem_drop(void *, u32);
int table_init(void *, u32, u32, u32, u32, u32);
static u32 bits32(f32 x) { u32 y; __builtin_memcpy(&y, &x, 4); return y; }
static u64 bits64(f64 x) { u64 y; __builtin_memcpy(&y, &x, 8); return y; }
#define TRAP(id) return trap_with_id(ctx, id, "")
#define FAIL(x) return x
#define MEMIDX u32 memidx = read_leb_u32_nocheck(&p)
#define MEMARG u32 memidx = 0, al = read_leb_u32_nocheck(&p); \
    if (al & 64) memidx = read_leb_u32_nocheck(&p); \
    u32 offset = read_leb_u32_nocheck(&p)
#define MEMPTR(d, i, n) do { int ret = memory_getptr(ctx, memidx, i, offset, \
    n, &d); if (ret) return ret; } while (0)
#define AMEMPTR(d, i, n) do { int ret = memory_atomic_getptr(ctx, memidx, i, \
    offset, n, &d, 0); if (ret) return ret; } while (0)
"""


def reference(traps):
    """C text defining ref_N_K for the K-th form of OPS[N]"""
    out = [PRELUDE]
    for k, v in traps.items():
        out.append("#define %s %d" % (k, v))
    for n, o in enumerate(OPS):
        for k, body in enumerate(o.body):
            out.append("int ref_%d_%d(P p, u32 *stack, void *ctx)\n{" % (n, k))
            for i in reversed(range(len(o.params))):
                t = o.params[i]
                v = "abc"[i]
                out.append("    stack -= %d; %s %s; __builtin_memcpy(&%s, "
                           "stack, %d);" % (CELLS[t], CT[t], v, v,
                                            4 * CELLS[t]))
            if o.results:
                out.append("    %s r;" % CT[o.results[0]])
            out.append("    { %s }" % body)
            if o.results:
                t = o.results[0]
                out.append("    __builtin_memcpy(stack, &r, %d); stack += %d;"
                           % (4 * CELLS[t], CELLS[t]))
            out.append("    __attribute__((musttail)) return "
                       "fetch_exec_next_insn(p, stack, ctx);\n}")
    return "\n".join(out) + "\n"

# the extended constant expressions
for _o in OPS:
    if _o.name in ("i32.add", "i32.sub", "i32.mul", "i64.add", "i64.sub",
                   "i64.mul"):
        _o.const = True
