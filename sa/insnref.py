"""The instructions of sa/ref/insns.c compared with the dispatch tables."""
import os
import re

from . import insn, refs, vg, wasmspec
from .build import Broken, VERIF
from .ir import Program

# what stays a call on both sides
BOUNDARY = [x for x in insn.BOUNDARY if not x.startswith(("schedule_",
            "get_func_", "local_"))] + """
module_tabletype module_globaltype module_tagtype module_tagtype_functype
valtype_cellsize resulttype_cellsize find_type_annotation
frame_locals_cellidx cells_copy cells_move val_to_cells
val_from_cells""".split()


class Insns:
    def __init__(self, ctx):
        t = ctx.tree()
        with open(os.path.join(VERIF, "sa", "ref", "insns.c")) as f:
            text = f.read()
        self.forms = {}
        for n, k in re.findall(r"^OP\((\w+)__(\d+)\)", text, re.M):
            self.forms.setdefault(n, []).append(int(k))
        bc = t.compile_extra("ref_insns.c", refs.define(text), "lib/insn.c")
        self.p = Program(t.extract(
            "insnref", insn.PIPE, inline=["*"],
            noinline=BOUNDARY + refs.MUTE,
            roots=["@" + x for x in insn.TABLES.values()] + ["ref_*"],
            extra=[bc]))
        self.p.outer = lambda: ctx.prog()
        self.tab = {}
        for pre, name in insn.TABLES.items():
            g = [g for g in self.p.globals if g.split(".")[0] == name]
            if not g:
                raise Broken("no dispatch table %s" % name)
            self.tab[pre] = self.p.globals[g[0]]["init"][1]
        self.ops = {o.name.replace(".", "_"): o for o in wasmspec.OPS}


def check(ctx, rep, rule, names):
    if not hasattr(ctx, "insnref"):
        ctx.insnref = Insns(ctx)
    x = ctx.insnref
    for n in names:
        o = x.ops[n]
        rep.seen(rule)
        t = x.tab[o.prefix]
        fn = insn.first_func(t[o.code]) if o.code < len(t) else None
        if fn is None:
            rep.bad(rule, o.name, insn.TABLES[o.prefix],
                    "opcode %s has no implementation" % insn.opcode(o))
            continue
        why = []
        stuck = None
        for k in x.forms[n]:
            g = vg.Graph()
            try:
                b = vg.Eval(g, x.p.f("ref_%s__%d" % (n, k)), insn.IGNORE,
                            insn.RETVAL, None, None, True, refs.MUTE)
                a = vg.Eval(g, x.p.f(fn), insn.IGNORE, insn.RETVAL, None,
                            None, True, refs.MUTE, (), not b.moving)
                d = vg.compare(g, a, b)
            except vg.Stuck as e:
                stuck = str(e)
                continue
            if d is None:
                break
            why.append(insn.describe(g, d))
        else:
            if why:
                f = x.p.f(fn)
                rep.bad(rule, o.name, f.base, "%s (%s): %s" % (
                    o.name, insn.opcode(o), why[0]))
            else:
                rep.seen("undecided")
                rep.sample("undecided: %s (%s)" % (o.name, stuck))
            continue
        rep.sample("%s (%s): %s computes its definition" % (
            o.name, insn.opcode(o), x.p.f(fn).base))
