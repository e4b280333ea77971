"""Every WASI call and the functions that turn an outcome into a result are
turned into value graphs on compiler IR and compared with their definitions in
sa/ref/wasi.c and sa/ref/wasihost.c: results stored, outputs written and on
which paths, value returned to the interpreter, resources given back."""
from .. import wasihostref, wasiref

NOT = """wasi_fdinfo_ wasi_table_ wasi_instance_""".split()
OUT = ["wasi_unstable_convert_filestat"]


def check(ctx, rep):
    rep.rule("calls", "each call stores the code of its outcome or traps, and "
             "writes its outputs only on success")
    names = wasiref.names()
    wasiref.check(ctx, rep, "calls", [
        n for n in names if not any(n.startswith(x) for x in NOT) and
        n not in OUT])
    rep.rule("outcome", "the outcome of a host operation is the one the host "
             "reports")
    wasihostref.check(ctx, rep, "outcome", [
        n for n in wasihostref.names() if n.startswith("wasi_host_") or
        n.startswith("wasi_vfs_") or n == "wasi_convert_errno"])
