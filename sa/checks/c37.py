"""The functions of the command line tool that read arguments, show results,
load and name modules and call functions are turned into value graphs on
compiler IR and compared with their definitions in sa/ref/cli.c."""
from .. import cliref

VALUES = """str_to_uint str_to_u32 str_to_size str_to_ptr parse_v128 arg_conv
repl_print_result unescape read_hex_from_stdin
print_trap""".split()
MODULES = """find_mod_u find_mod set_memory repl_load_from_buf
toywasm_repl_load toywasm_repl_load_hex repl_unload toywasm_repl_register
repl_save repl_unload_u""".split()
CALLS = """toywasm_repl_set_timeout check_timeout repl_exec_init exec_func
toywasm_repl_invoke repl_global_get repl_module_subcmd""".split()


def check(ctx, rep):
    rep.rule("values", "an argument is the number written, or refused; what "
             "is shown is the result")
    cliref.check(ctx, rep, "values", VALUES, ())
    rep.rule("modules", "a module is found by its name once all of it was "
             "loaded, and released in order")
    cliref.check(ctx, rep, "modules", MODULES)
    rep.rule("calls", "the function named is called with exactly its "
             "arguments, until it ends or its time is over")
    cliref.check(ctx, rep, "calls", CALLS)
