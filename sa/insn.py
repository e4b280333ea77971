"""The instruction implementations of lib/insn*.h as programs: what each
opcode executes, and how it is decoded and validated."""
import re

from . import vg, wasmspec
from .build import Broken
from .ir import Program

IC = "instcombine<no-verify-fixpoint>"
PIPE = ("always-inline,function(fix-entries,one-latch,sroa,early-cse<memssa>,%s,simplifycfg,"
        "loop-mssa(licm<no-allowspeculation>),loop(indvars,loop-deletion,loop-unroll-full),sroa,early-cse<memssa>,%s,gvn<no-pre;no-load-pre>,"
        "jump-threading,simplifycfg,%s,simplifycfg,fix-entries)" % (IC, IC, IC))

# calls that stay calls when an instruction is compared with its definition
BOUNDARY = """memory_getptr memory_getptr2 memory_atomic_getptr memory_init
memory_notify memory_wait memory_grow2 trap_with_id table_init table_access
table_get table_set table_get_func table_grow get_func_indirect
read_leb_i32_nocheck read_leb_i64_nocheck read_leb_u32_nocheck
read_leb_s33_nocheck schedule_call schedule_br schedule_exception
schedule_goto_else schedule_return schedule_return_call fetch_exec_next_insn
fetch_multibyte_opcode local_get local_set local_getptr global_get global_set
data_drop elem_drop validation_failure push_valtype pop_valtype""".split()

TABLES = {0: "exec_instructions", 0xfc: "exec_instructions_fc",
          0xfd: "exec_instructions_fd", 0xfe: "exec_instructions_fe"}

IGNORE = {"trap_with_id": {0, 1}}
RETVAL = {"trap_with_id": -1}


def numbers(tree):
    """the values of the trap identifiers and of the trap result"""
    names = sorted(set(re.findall(r"\bTRAP_[A-Z_]+\b", wasmspec.PRELUDE +
                                  "".join(b for o in wasmspec.OPS
                                          for b in o.body))))
    text = '#include "exec_context.h"\n'
    for n in names:
        text += "int witness_%s = %s;\n" % (n, n)
    text += "int witness_failure = ETOYWASMTRAP;\n"
    text += "int witness_holder(void) { return witness_failure; }\n"
    bc = tree.compile_extra("numbers.c", text, "lib/insn.c")
    # read back through the same extractor
    p = Program(tree.extract("numbers", "function(sroa)", known=False,
                             files=lambda k: False, extra=[bc]))
    out = {}
    for n in names + ["failure"]:
        init = p.globals["witness_" + n]["init"]
        out[n] = vg.signed(int(init[1]), 32) if init[0] == "c" else 0
    return out


class Exec:
    """what the dispatch tables execute, next to the reference forms"""

    def __init__(self, ctx):
        t = ctx.tree()
        num = numbers(t)
        if num.pop("failure") != -1:
            raise Broken("the trap result is not -1 any more")
        ref = t.compile_extra("ref.c", wasmspec.reference(num), "lib/insn.c")
        self.p = Program(t.extract(
            "exec", PIPE, inline=["*"], noinline=BOUNDARY, unroll=100000,
            roots=["@" + x for x in TABLES.values()] + ["ref_*"],
            extra=[ref]))
        self.tab = {}
        for pre, name in TABLES.items():
            g = [g for g in self.p.globals if g.split(".")[0] == name]
            if not g:
                raise Broken("no dispatch table %s" % name)
            init = self.p.globals[g[0]]["init"]
            if not init or init[0] != "agg":
                raise Broken("dispatch table %s is empty" % name)
            self.tab[pre] = init[1]

    def target(self, op):
        """the function the dispatch table names for an opcode, or None"""
        t = self.tab[op.prefix]
        if op.code >= len(t):
            return None
        return first_func(t[op.code])


def first_func(e):
    if isinstance(e, str):
        return e[1:] if e.startswith("@") else None
    if isinstance(e, (list, tuple)):
        for x in e:
            r = first_func(x)
            if r:
                return r
    return None


def get(ctx):
    if not hasattr(ctx, "insn_exec"):
        ctx.insn_exec = Exec(ctx)
    return ctx.insn_exec


def describe(g, d):
    name, (path, x, y) = d
    when = [("" if t else "not ") + g.show(q, 4) for q, t in
            list(path.items())[:4]]
    return "%s differs%s: code has %s, the definition has %s" % (
        name, " when " + " and ".join(when) if when else "",
        g.show(x, 6)[:300], g.show(y, 6)[:300])


def where(f):
    return "%s (%s)" % (f.name, f.file or "?") if hasattr(f, "file") \
        else f.name


def definitions(ctx, rep, classes, rule):
    """compare every opcode of the given classes with its definition"""
    x = get(ctx)
    undecided = []
    total = 0
    for n, o in enumerate(wasmspec.OPS):
        if o.cls not in classes or not o.body:
            continue
        total += 1
        rep.seen(rule)
        label = o.name
        fn = x.target(o)
        if fn is None:
            rep.bad(rule, label, TABLES[o.prefix],
                    "opcode %s has no implementation in the dispatch table"
                    % opcode(o))
            continue
        f = x.p.f(fn)
        g = vg.Graph()
        try:
            a = vg.Eval(g, f, IGNORE, RETVAL)
        except vg.Stuck as e:
            undecided.append("%s (%s)" % (label, e))
            continue
        why = []
        ok = stuck = False
        for k in range(len(o.body)):
            try:
                b = vg.Eval(g, x.p.f("ref_%d_%d" % (n, k)), IGNORE, RETVAL)
                d = vg.compare(g, a, b)
            except vg.Stuck as e:
                stuck = True
                continue
            if d is None:
                ok = True
                break
            why.append(describe(g, d))
        if ok:
            rep.sample("%s (%s): %s computes its definition" %
                       (label, opcode(o), f.base))
        elif why:
            rep.bad(rule, label, f.base, "%s (%s): %s" %
                    (label, opcode(o), why[0]))
        elif stuck:
            undecided.append(label)
    rep.seen("undecided", len(undecided))
    for u in undecided[:8]:
        rep.sample("undecided: " + u)
    if len(undecided) * 4 > total:
        raise Broken("%d of %d instructions undecided: %s" % (
            len(undecided), total, ", ".join(undecided[:5])))
    rep.assumptions.append(
        "Each definition is written from the WebAssembly specification in C "
        "(sa/wasmspec.py) and compiled the same way; two computations count "
        "as equal when their value graphs coincide under every combination "
        "of the conditions they test.")


def opcode(o):
    return "0x%02x" % o.code if not o.prefix else "0x%02x %d" % (o.prefix,
                                                                 o.code)


# -- decoding and validation

# what changes the state of the validator
KEEP = set("""pop_valtype push_valtype pop_valtypes push_valtypes peek_valtypes
mark_unreachable push_ctrlframe pop_ctrlframe target_label_types
record_type_annotation bitmap_set""".split())

PIGNORE = {"pop_valtype": {0, 2}, "read_leb_u32": {0, 1},
           "read_leb_i32": {0, 1}, "read_leb_i64": {0, 1}, "read_u8": {0, 1},
           "read_u32": {0, 1}, "read_u64": {0, 1}, "read_leb_s": {0, 1, 2},
           "get_functype_for_blocktype": {1, 2}, "pop_ctrlframe": {0, 1, 3},
           "target_label_types": {0, 1}, "read_vec_u32": {1, 2},
           "module_functype": {0, 1}}
PRETVAL = {"validation_failure": 22}
PPIPE = PIPE
DISPATCH = {0: "fetch_process_next_insn", 0xfc: "fetch_process_next_insn_fc",
            0xfd: "fetch_process_next_insn_fd",
            0xfe: "fetch_process_next_insn_fe"}
SDISPATCH = {0: "read_insn_nocheck", 0xfc: "skip_next_insn_fc",
             0xfd: "skip_next_insn_fd", 0xfe: "skip_next_insn_fe"}


class Proc:
    """how each opcode is validated and skipped, next to the references"""

    def __init__(self, ctx):
        from . import wasmvalid
        t = ctx.tree()
        ref = t.compile_extra("vref.c", wasmvalid.reference(), "lib/insn.c")
        self.p = Program(t.extract(
            "proc", PPIPE, inline=["read_memarg", "read_memarg_nocheck"],
            unroll=100000,
            roots=["process_*", "fetch_process_next_insn*",
                   "read_insn_nocheck", "skip_next_insn*", "vref_*",
                   "sref_*"], extra=[ref]))


def getproc(ctx):
    if not hasattr(ctx, "insn_proc"):
        ctx.insn_proc = Proc(ctx)
    return ctx.insn_proc


def leaves(g, n, path=None):
    """the alternatives of a choice with the conditions they need"""
    path = path or {}
    k = g.nodes[n]
    if k[0] != "ite":
        yield path, n
        return
    for side, x in ((True, k[2]), (False, k[3])):
        p2 = dict(path)
        p2[k[1]] = side
        if vg.feasible(g, p2):
            yield from leaves(g, x, p2)


class Row:
    """what is known about one opcode on the decoding side"""
    __slots__ = ("op", "n", "valid", "const", "skip", "bad", "undecided")


def graph_target(g, x):
    k = g.nodes[x]
    if k[0] == "result" and g.nodes[k[1]][0] == "pure":
        return g.nodes[k[1]][1]
    return None


def callees(g, eff):
    """the names of the calls in an effect history"""
    out = []
    todo = [eff]
    while todo:
        k = g.nodes[todo.pop()]
        if k[0] == "ev":
            out.append(k[2])
            todo.append(k[1])
        elif k[0] == "ite":
            todo += [k[2], k[3]]
        elif k[0] in ("seq", "writes", "loop"):
            todo.append(k[1])
    return out


def dispatch(x):
    """(op, validating function, allowed in constants, skipping function)"""
    g = vg.Graph()
    flag = vg.Eval(g, x.p.f("vref_const"), PIGNORE, PRETVAL, set())
    flag = flag.outcome("value")
    flag = g.icmp("ne", flag, g.const(0, g.w[flag]))
    atom = [a for a, _ in leaves(g, flag)][0]
    if len(atom) != 1:
        raise Broken("constant expression flag")
    atom = list(atom)[0]
    for n, o in enumerate(wasmspec.OPS):
        g2 = g
        given = {("read_leb_u32", 2): o.code, "read_leb_u32": 0} \
            if o.prefix else {("read_u8", 2): o.code, "read_u8": 0}
        a = vg.Eval(g2, x.p.f(DISPATCH[o.prefix]), PIGNORE, PRETVAL, set(),
                    given)
        by = {True: set(), False: set()}
        for path, leaf in leaves(g2, a.outcome("value")):
            for side in (True, False):
                if path.get(atom, side) == side:
                    by[side].add(graph_target(g2, leaf))
        given = {"read_leb_u32_nocheck": o.code} if o.prefix else \
            {"byte": o.code}
        b = vg.Eval(g2, x.p.f(SDISPATCH[o.prefix]), PIGNORE, PRETVAL, None,
                    given)
        sk = [c for c in callees(g2, b.outcome("effects"))
              if c not in ("read_leb_u32_nocheck", "xlog_error")]
        yield n, o, by, sk


def iszero(g, v):
    memo = {}

    def rec(x):
        if x not in memo:
            k = g.nodes[x]
            if k[0] == "ite":
                memo[x] = g.ite(g.atom(k[1]), rec(k[2]), rec(k[3]))
            else:
                memo[x] = g.icmp("eq", x, g.const(0, g.w[x]))
        return memo[x]
    return rec(v)


def success(g, e):
    """when the function returns 0"""
    ok = g.const(0, 1)
    for r, kind, comp in e.exits:
        if kind == "ret":
            ok = g.lor(ok, g.land(r, iszero(g, comp["value"])))
    return ok


def demands(g, x, y):
    """whether two acceptance conditions differ in what they ask of the
    operand stack, of the immediates, or of both"""
    part = []
    for n in (x, y):
        st, im = set(), set()
        for a in g.atoms_of(n, cap=100000):
            k = g.nodes[a]
            if k[0] == "eq" and g.nodes[k[1]][0] == "result" and \
                    g.nodes[g.nodes[k[1]][1]][0] == "ev":
                st.add(a)
            else:
                im.add(a)
        part.append((st, im))
    s = part[0][0] != part[1][0]
    i = part[0][1] != part[1][1]
    return "types" if s and not i else "accepts" if i and not s else "both"


def contrast(g, a, b):
    """how two decoders differ: None or (what, difference)
    what is "accepts" (immediates), "types" (operand stack), "both",
    "stack", "position" or "loop" """
    sa, sb = success(g, a), success(g, b)
    d = vg.difference(g, sa, sb)
    if d is not None:
        return demands(g, sa, sb), d
    dead = g.mk(0, "none")
    a.kindmap()
    b.kindmap()
    names = a.components() | b.components()
    for n in ["effects"] + sorted(x for x in names if x.startswith("a")):
        x, y = [g.ite(sa, e.outcome(n), dead) for e in (a, b)]
        d = vg.difference(g, x, y)
        if d is not None:
            return ("stack" if n == "effects" else "position"), d
    # what goes round a loop again
    again = sorted(n for n in names if n.startswith(("phi", "mem")))
    for n in again + ["effects"]:
        out = []
        for e in (a, b):
            x = dead
            for r, kind, comp in e.exits:
                if kind == "again":
                    x = g.ite(r, comp.get(n, dead), x)
            out.append(x)
        d = vg.difference(g, *out)
        if d is not None:
            return "loop", d
    return None


def decoders(ctx):
    """compare every decoder with its references, once per run"""
    if hasattr(ctx, "insn_rows"):
        return ctx.insn_rows
    x = getproc(ctx)
    rows = []
    for n, o, by, sk in dispatch(x):
        r = Row()
        r.op, r.n, r.valid, r.const, r.skip = o, n, by[False], by[True], sk
        r.bad = []           # (kind, function, text)
        r.undecided = []
        rows.append(r)
        names = {t for t in r.valid if t}
        if len(names) == 1 and r.valid == names:
            one(x, r, n, o, list(names)[0])
    ctx.insn_rows = rows
    return rows


def mode(x, validating):
    """a graph in which the mode of the decoder is known"""
    g = vg.Graph()
    m = vg.Eval(g, x.p.f("vref_mode"), PIGNORE, PRETVAL)
    v = m.outcome("value")
    p = [p for p, leaf in leaves(g, g.icmp("ne", v, g.const(0, g.w[v])))
         if g.isc(leaf) == (0 if validating else 1)]
    if len(p) != 1 or len(p[0]) != 1:
        raise Broken("the mode of the decoder")
    g.assume = dict(p[0])
    g.memo = {}
    return g


SKIPPING = {("advance", "read_u8"): 1, "read_u8": 0,
            ("advance", "read_u32"): 4, "read_u32": 0,
            ("advance", "read_u64"): 8, "read_u64": 0, "read_vec_u32": 0}


def one(x, r, n, o, fn):
    from . import wasmvalid
    try:
        g = mode(x, True)
        a = vg.Eval(g, x.p.f(fn), PIGNORE, PRETVAL, KEEP)
        why = []
        for k in range(len(wasmvalid.bodies(o))):
            b = vg.Eval(g, x.p.f("vref_%d_%d" % (n, k)), PIGNORE, PRETVAL,
                        KEEP)
            d = contrast(g, a, b)
            why.append(d)
            if d is None:
                break
        if None not in why:
            r.bad.append((why[0][0], fn, describe(g, why[0])))
    except vg.Stuck as e:
        r.undecided.append("%s: %s" % (o.name, e))
    if len(r.skip) != 1 or wasmvalid.skip(o) is None:
        return
    try:
        g = mode(x, False)
        a = vg.Eval(g, x.p.f(r.skip[0]), PIGNORE, PRETVAL, KEEP, SKIPPING)
        b = vg.Eval(g, x.p.f("sref_%d" % n), PIGNORE, PRETVAL, KEEP, SKIPPING)
        d = contrast(g, a, b)
        if d is not None:
            r.bad.append(("skip", r.skip[0], describe(g, d)))
    except vg.Stuck as e:
        r.undecided.append("%s (skipped): %s" % (o.name, e))


TROUBLE = {"accepts": ("immediate",), "types": ("type",),
           "both": ("immediate", "type"), "stack": ("type",),
           "position": ("length",), "loop": ("immediate", "type", "length"),
           "skip": ("length",)}


def report(ctx, rep, kind, rule):
    """violations of one kind: "immediate", "type" or "length" """
    rows = decoders(ctx)
    lost = 0
    for r in rows:
        o = r.op
        rep.seen(rule)
        fns = sorted(t for t in r.valid if t)
        if not fns:
            # reported where opcodes are told apart
            continue
        for what, fn, text in r.bad:
            if kind in TROUBLE[what]:
                rep.bad(rule, o.name, fn, "%s (%s): %s" % (
                    o.name, opcode(o), text))
        if r.undecided:
            lost += 1
            rep.sample("undecided: " + r.undecided[0])
        elif not r.bad:
            rep.sample("%s (%s): %s agrees" % (o.name, opcode(o), fns[0]))
    rep.seen("undecided", lost)
    if lost * 4 > len(rows):
        raise Broken("%d of %d decoders undecided" % (lost, len(rows)))
    rep.assumptions.append(
        "Each definition is written from the WebAssembly specification in C "
        "against the validator's own interface (sa/wasmvalid.py), compiled "
        "the same way, and compared as a value graph: condition of "
        "acceptance, sequence of operations on the type stack and position "
        "after the immediates.")
