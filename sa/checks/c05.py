"""The functions that read the structure of a module are turned into value
graphs on compiler IR and compared with their definitions in sa/ref/module.c;
the table that maps section numbers to readers is compared with the binary
format's numbering and order."""
from .. import moduleref, tables

FUNCS = """section_load read_section get_section_type read_custom_section
read_valtype read_resulttype read_functype read_limits read_memtype
read_globaltype read_tabletype read_tagtype read_importdesc read_exportdesc
read_import read_export read_global read_element read_element_init_expr
read_data read_const_expr read_expr read_func read_type_section
read_import_section read_function_section read_table_section
read_memory_section read_tag_section read_global_section read_export_section
read_start_section read_element_section read_datacount_section
read_code_section read_data_section read_name_section
read_dylink_0_section read_dylink_mem_info read_dylink_needs
read_dylink_import_info read_import_info module_load_into cmp_export
module_create""".split()

# number of a section and the functions' order in a module
NUMBER = """custom type import function table memory global export start
element code data datacount tag""".split()
ORDER = """type import function table memory tag global export start element
datacount code data""".split()


def check(ctx, rep):
    rep.rule("structure", "each part of a module is accepted exactly when "
             "the binary format allows it")
    moduleref.check(ctx, rep, "structure", FUNCS)
    rep.rule("sections", "each section number has its reader, and the "
             "readers are in the order of the binary format")
    p = ctx.prog()
    order = {}
    for n, name in enumerate(NUMBER):
        rows = tables.entries(p, "read_%s_section" % name)
        if not rows:
            continue
        rep.seen("sections")
        t, at, row = rows[0]
        if len(rows) > 1:
            rep.bad("sections", name, t, "two section numbers are read as %s "
                    "sections" % name)
        if at != n:
            rep.bad("sections", name, t, "section %d is read as the %s "
                    "section, which is number %d" % (at, name, n))
        if name != "custom":
            order[name] = [tables.number(x) for x in row.values()
                           if tables.number(x) is not None]
    if len(order) not in (0, len(ORDER)):
        for name in ORDER:
            if name not in order:
                rep.bad("sections", name, "section table",
                        "no section number is read as the %s section" % name)
    for a, b in zip(ORDER, ORDER[1:]):
        x, y = order.get(a), order.get(b)
        if x and y and len(x) == len(y) == 1 and not 0 < x[0] < y[0]:
            rep.bad("sections", b, "section table", "the %s section is "
                    "accepted before or together with the %s section"
                    % (b, a))
