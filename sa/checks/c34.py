"""Each instruction on operands, locals, globals and references, and the
functions that lay values out as cells, are turned into value graphs on
compiler IR and compared with their definitions in sa/ref/insns.c and
sa/ref/cell.c (how locals are numbered, in sa/ref/module.c)."""
from .. import insnref, moduleref, refs

BOUNDARY = """valtype_cellsize resulttype_cellidx resulttype_cellsize
localtype_cellidx localtype_cellsize cells_copy val_to_cells
val_from_cells""".split()

INSNS = """drop select select_t local_get local_set local_tee global_get
global_set ref_null ref_is_null ref_func""".split()

MODULE = """populate_localtype_cellidx populate_resulttype_cellidx
read_locals""".split()


def check(ctx, rep):
    rep.rule("insn", "every variable, parametric and reference instruction "
             "moves exactly the value the specification defines")
    insnref.check(ctx, rep, "insn", INSNS)
    rep.rule("cells", "sizes, positions and copies of values agree with the "
             "definition")
    refs.check(ctx, rep, "cells", "cell", "lib/cell.c", BOUNDARY)
    rep.rule("number", "positions of locals and parameters are computed without "
             "wrapping")
    moduleref.check(ctx, rep, "number", MODULE)
