"""Every function of the dynamic linker is turned into a value graph on
compiler IR and compared with its definition in sa/ref/dyld.c: which imports
it provides, the ranges it gives to objects, what a symbol is bound to, the
order in which objects are loaded, bound and initialised, and the calls a
guest makes to load objects at run time.  So are the functions of the module
loader that read the dylink.0 section."""
from .. import dyldref, moduleref, tables

OBJECTS = """dyld_init dyld_find_object_by_name
dyld_search_and_load_object_from_file dyld_load_needed_objects
dyld_object_destroy dyld_load_object_from_file dyld_load dyld_clear
dyld_main_object_instance dyld_memory dyld_func_table""".split()
RANGES = """dyld_allocate_memory dyld_allocate_table dyld_allocate_stack
dyld_allocate_heap dyld_allocate_table_for_obj_exports
dyld_create_shared_resources dyld_adopt_shared_resources find_global
import_memory_type""".split()
SYMBOLS = """is_GOT_mem_import is_GOT_func_import is_binding_weak
dyld_create_got dyld_create_shared_import_objects dyld_register_funcinst
dyld_resolve_symbol_in_obj dyld_resolve_symbol dyld_resolve_got_symbols
dyld_resolve_plt_symbols dyld_resolve_dependencies dyld_resolve_plt
dyld_plt""".split()
INIT = """dyld_execute_obj_init_func1 dyld_execute_obj_init_func tsort_visit
dyld_execute_all_init_funcs dyld_execute_init_funcs""".split()
RUN = """dyld_dynamic_load_object_by_name dyld_dlfcn_load_object
dyld_dlfcn_resolve_symbol import_object_create_for_dyld""".split()
SECTION = """read_dylink_mem_info read_dylink_needs read_dylink_import_info
read_dylink_0_section clear_dylink""".split()

LAYOUT = ["__heap_base", "__heap_end", "__stack_low", "__stack_high"]


def layout(ctx, rep, rule):
    """the names of the globals describing the layout, in the order in which
    the linker numbers them"""
    p = ctx.prog()

    def names(x, out):
        if isinstance(x, str) or x[0] != "agg":
            return
        n = tables.name(p, x)
        if n is not None:
            out.append(n)
            return
        for y in x[1]:
            names(y, out)
    for g, d in sorted(p.globals.items()):
        if "init" not in d or isinstance(d["init"], str):
            continue
        out = []
        names(d["init"], out)
        if len(out) > 1 and set(out) & set(LAYOUT):
            rep.seen(rule, len(out))
            if out != LAYOUT:
                rep.bad(rule, g, "%s:%s" % (d.get("file"), d.get("line")),
                        "the globals describing the layout are %s, not %s" %
                        (", ".join(out), ", ".join(LAYOUT)))


def check(ctx, rep):
    rep.rule("section", "the dylink.0 section is decoded as specified")
    moduleref.check(ctx, rep, "section", SECTION)
    rep.rule("objects", "each needed object is found by its own name and "
             "loaded once, and everything taken is released")
    dyldref.check(ctx, rep, "objects", OBJECTS)
    rep.rule("ranges", "an object gets a range of memory and of the table that "
             "is aligned, exists and is nobody else's")
    dyldref.check(ctx, rep, "ranges", RANGES)
    rep.rule("symbols", "a symbol is bound to the first export of its kind and "
             "type, a missing one only when weak, and calls go to it")
    dyldref.check(ctx, rep, "symbols", SYMBOLS)
    layout(ctx, rep, "symbols")
    rep.rule("init", "relocations of all objects are applied before any "
             "constructor, those of needed objects first")
    dyldref.check(ctx, rep, "init", INIT)
    rep.rule("runtime", "objects and symbols requested by the guest are looked "
             "up with checked names and handles")
    dyldref.check(ctx, rep, "runtime", RUN)
