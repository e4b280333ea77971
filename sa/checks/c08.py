"""For every opcode the functions that validate, skip and execute it are read
off the dispatch code and tables, and the position each of them leaves the
decoder at is compared, as a value graph, with the opcode's immediates."""
from .. import insn
from ..build import Broken


def stem(name):
    """the instruction a function is named after"""
    name = name.split(".")[0]
    for p in ("fetch_exec_", "fetch_process_", "process_", "exec_",
              "execute_"):
        if name.startswith(p):
            return name[len(p):]
    return name


def check(ctx, rep):
    rep.rule("selection", "validating, skipping and executing an opcode "
             "select the same instruction")
    rep.rule("length", "validating and skipping an opcode consume the same "
             "immediates")
    insn.report(ctx, rep, "length", "length")
    x = insn.get(ctx)
    for r in insn.decoders(ctx):
        o = r.op
        rep.seen("selection")
        if None in r.valid or len(r.valid) != 1:
            rep.bad("selection", o.name, insn.DISPATCH[o.prefix],
                    "%s (%s) is not accepted by the validator" %
                    (o.name, insn.opcode(o)))
            continue
        v = list(r.valid)[0]
        if len(r.skip) != 1:
            rep.bad("selection", o.name, insn.SDISPATCH[o.prefix],
                    "%s (%s) is not skipped by one decoder: %s" %
                    (o.name, insn.opcode(o), ", ".join(r.skip) or "none"))
        e = x.target(o)
        if e is None:
            rep.bad("selection", o.name, insn.TABLES[o.prefix],
                    "%s (%s) has no entry" % (o.name, insn.opcode(o)))
            continue
        for other in (e,) + tuple(r.skip[:1]):
            if stem(other) != stem(v):
                rep.bad("selection", o.name, other,
                        "%s (%s) is validated by %s and run by %s" %
                        (o.name, insn.opcode(o), v, other))
