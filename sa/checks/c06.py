"""Every opcode's validating decoder is compared, as a value graph, with the
conditions the specification puts on its immediates: each index below the size
of its index space, alignment, lane numbers, mutability.  The readers of the
sections that mention indices are compared with sa/ref/module.c."""
from .. import insn, moduleref

FUNCS = """read_functype read_tagtype read_importdesc read_exportdesc
read_function_section read_start_section read_element read_data
read_element_init_expr read_const_expr""".split()


def check(ctx, rep):
    rep.rule("immediate", "an instruction is accepted exactly when its "
             "indices, alignment and lane numbers are within their bounds")
    insn.report(ctx, rep, "immediate", "immediate")
    rep.rule("section", "a section is accepted exactly when the indices in it "
             "are within their index spaces")
    moduleref.check(ctx, rep, "section", FUNCS)
