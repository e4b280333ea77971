"""Every function of the module writer is turned into a value graph on
compiler IR and compared with its definition in sa/ref/writer.c: the bytes of
each type, import, export, segment and body, the numbers and order of
sections, the two passes that count and write, and what becomes of errors.
So are the functions that find where an expression ends."""
from .. import refs, validref, writerref


def check(ctx, rep):
    rep.rule("bytes", "each part of a module is written as the binary format "
             "says, whichever kinds and counts it has")
    writerref.check(ctx, rep, "bytes", [n for n in refs.names("writer")
                                        if n != "expr_end"])
    rep.rule("end", "an expression is written up to its own end, whatever "
             "blocks it contains")
    writerref.check(ctx, rep, "end", ["expr_end"])
    validref.check(ctx, rep, "end", ["parse_expr"])
