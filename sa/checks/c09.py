"""Every integer opcode's implementation, as the dispatch table reaches it,
is turned into a value graph on compiler IR and compared with the graph of its
definition: result, stack pointer, trap condition and trap kind, for all
operand values at once."""
from .. import insn


def check(ctx, rep):
    rep.rule("definition", "the implementation of each integer opcode computes "
             "what the specification defines and traps exactly when it says")
    insn.definitions(ctx, rep, ("int",), "definition")
