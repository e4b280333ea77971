"""The functions an embedder calls to find, call and read what a module exports
are turned into value graphs on compiler IR and compared with their definitions
in sa/ref/instance.c, sa/ref/exec.c and sa/ref/base.c."""
from .. import baseref, execref, instref

INST = """module_find_export module_functype module_memtype module_tabletype
module_globaltype module_tagtype instance_execute_func
instance_execute_func_nocheck instance_execute_continue
instance_execute_handle_restart_once instance_execute_handle_restart
schedule_call_from_hostfunc check_functype_with_string functype_from_string
compare_functype compare_resulttype compare_name cconv_deref_func_ptr
cconv_memory cconv_func_table exec_const_expr""".split()
EXEC = """exec_push_vals exec_pop_vals exec_expr exec_expr_continue
return_to_hostfunc do_host_call""".split()


def check(ctx, rep):
    rep.rule("calls", "a call from the embedder is made only with the exact "
             "type, and exports are found under their name and kind")
    instref.check(ctx, rep, "calls", INST)
    rep.rule("values", "values cross with their width and in order")
    execref.check(ctx, rep, "values", EXEC)
    baseref.check(ctx, rep, "values", ["invoke"])
