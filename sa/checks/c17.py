"""The functions that match imports with what they are bound to are turned into
value graphs on compiler IR and compared with their definitions in
sa/ref/instance.c: kind, every part of the type, and the order of the search."""
from .. import instref

FUNCS = """module_import module_importdesc compare_resulttype
compare_functype compare_name resulttype_from_string functype_from_string
check_functype_with_string memtype_page_shift memtype_page_size
import_object_alloc import_object_create_for_exports
import_object_find_entry find_entry_for_import match_limits check_functype
check_tabletype check_memtype check_globaltype check_tagtype resolve_imports
import_object_create_for_host_funcs instance_create_no_init
taginst_functype funcinst_functype module_tagtype module_tagtype_functype
create_satisfying_functions
create_satisfying_shared_memories dummy_func
is_numtype is_vectype is_reftype is_valtype""".split()


def check(ctx, rep):
    rep.rule("imports", "an import is bound only to an entity of its kind "
             "whose type matches")
    instref.check(ctx, rep, "imports", FUNCS)
