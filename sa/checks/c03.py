"""Each table instruction and indirect call, and the functions they use, are
turned into value graphs on compiler IR and compared with their definitions
in sa/ref/insns.c and sa/ref/table.c: which range is checked against which
table before anything is read or written, that a null or mistyped function
traps, and how a table is created and grown."""
from .. import insnref, refs

BOUNDARY = """trap_with_id table_access exec_const_expr bitmap_test bitmap_set
valtype_cellsize val_to_cells val_from_cells funcinst_functype
compare_functype mem_extend mem_zalloc mem_calloc mem_free""".split()

INSNS = """table_get table_set table_size table_grow table_fill table_copy
call_indirect return_call_indirect""".split()


def check(ctx, rep):
    rep.rule("insn", "every table instruction and indirect call checks its "
             "range and does what the specification defines")
    insnref.check(ctx, rep, "insn", INSNS)
    rep.rule("access", "the functions that check, read, write, initialise, "
             "grow and create tables do what their definition does")
    functions(ctx, rep, "access")


def functions(ctx, rep, rule, names=None):
    refs.check(ctx, rep, rule, "table", "lib/exec_insn_subr.c",
               BOUNDARY, ignore={"trap_with_id": {0, 1}},
               retval={"trap_with_id": -1}, names=names)
