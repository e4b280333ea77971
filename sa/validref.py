"""Functions of the validator compared with sa/ref/valid.c."""
from . import refs

BOUNDARY = """_vec_prealloc _vec_free array_extend mem_alloc mem_free
valtype_cellsize is_reftype validation_failure bitmap_free
load_options_set_defaults report_clear read_insn_nocheck""".split()

FUNCS = """push_valtype pop_valtype push_valtypes pop_valtypes peek_valtypes
push_ctrlframe pop_ctrlframe mark_unreachable label_types returntype
target_label_types record_type_annotation resulttype_alloc ptr2pc
pc2ptr""".split()


def check(ctx, rep, rule, names):
    refs.check(ctx, rep, rule, "valid", "lib/validation.c", BOUNDARY,
               ignore={"validation_failure": {0}},
               retval={"validation_failure": 22}, names=names, own=True)
