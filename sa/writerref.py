"""The module writer compared with sa/ref/writer.c."""
from . import refs

BOUNDARY = """writer_write write_leb_u32 write_valtype write_resulttype
write_functype write_name write_limits write_tabletype write_memtype
write_tagtype write_globaltype write_importdesc write_import write_expr
write_global write_exportdesc write_export write_element write_locals
write_code write_func write_data write_section module_write1 count
write_to_file expr_end parse_expr write_type_section write_import_section
write_function_section write_table_section write_memory_section
write_tag_section write_global_section write_export_section
write_start_section write_element_section write_datacount_section
write_code_section write_data_section""".split()


def check(ctx, rep, rule, names=None):
    return refs.check(ctx, rep, rule, "writer", "lib/module_writer.c",
                      BOUNDARY, names=names)
