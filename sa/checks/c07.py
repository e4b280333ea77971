"""Every opcode's validating decoder, as the dispatch reaches it, is turned
into a value graph and compared with the stack effect the specification gives
the opcode, the functions that keep the validator's stacks with their
definitions in sa/ref/valid.c; where the opcode may appear (constant expressions) is read off the
dispatch."""
from .. import insn, validref


def check(ctx, rep):
    rep.rule("stack-effect", "the validator pops and pushes exactly the "
             "operand types the specification gives each opcode")
    rep.rule("constant", "an opcode is accepted in a constant expression "
             "exactly when the specification lists it there")
    insn.report(ctx, rep, "type", "stack-effect")
    rep.rule("stack", "the functions that keep the validator's stacks do what "
             "the specification's algorithm does")
    validref.check(ctx, rep, "stack", validref.FUNCS)
    for r in insn.decoders(ctx):
        o = r.op
        rep.seen("constant")
        allowed = r.const != {None}
        if allowed and not o.const:
            rep.bad("constant", o.name, insn.DISPATCH[o.prefix],
                    "%s is accepted in constant expressions" % o.name)
        elif o.const and None in r.const and None not in r.valid:
            rep.bad("constant", o.name, insn.DISPATCH[o.prefix],
                    "%s is rejected in constant expressions" % o.name)
