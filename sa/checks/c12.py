"""Every load, store, bulk-memory, vector-memory and atomic opcode's
implementation is turned into a value graph on compiler IR and compared with
the graph of its definition: which checked range it asks for, which bytes it
reads and writes in which order, extension and byte order, and for atomics
that the access is one indivisible operation between taking and releasing the
atomic range."""
from .. import insn, insnref


def check(ctx, rep):
    rep.rule("definition", "the implementation of each memory opcode accesses "
             "exactly the bytes the specification defines")
    insn.definitions(ctx, rep, ("memory", "atomic", "table"), "definition")
    insnref.check(ctx, rep, "definition", ("memory_size", "memory_copy"))
