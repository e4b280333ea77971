"""Every function that makes something grow that has a limit is turned into a
value graph on compiler IR and compared with its definition: which quantity is
compared with which limit, and that nothing has changed when it is refused."""
from .. import baseref, execref, instref, moduleref
from . import c01, c03

EXEC = """stack_prealloc frame_enter do_wasm_call exec_expr""".split()
BASE = """mem_reserve mem_reserve_one mem_unreserve mem_unreserve_one
mem_context_init mem_context_setlimit mem_alloc mem_zalloc mem_calloc
mem_extend mem_extend_zero array_extend _vec_resize _vec_prealloc
idalloc_init idalloc_alloc exec_options_set_defaults
load_options_set_defaults""".split()
MODULE = """read_limits read_memtype read_tabletype read_vec_count
read_vec_u32 _read_vec_with_ctx_impl read_locals
populate_resulttype_cellidx populate_localtype_cellidx
read_memory_section""".split()


def check(ctx, rep):
    rep.rule("execution", "call depth and operand stack stay within the "
             "embedder's limits")
    execref.check(ctx, rep, "execution", EXEC)
    rep.rule("heap", "heap use stays within the limit of every context")
    baseref.check(ctx, rep, "heap", BASE)
    rep.rule("module", "declared sizes and counts stay within the limits of "
             "the format")
    moduleref.check(ctx, rep, "module", MODULE)
    rep.rule("memory", "memories and tables stay within their maximum")
    c01.functions(ctx, rep, "memory", ["memory_grow2", "memory_grow"])
    c03.functions(ctx, rep, "memory", ["table_grow", "table_instance_create"])
    instref.check(ctx, rep, "memory", ["memory_instance_create"])
