"""Branch conditions known to hold at a program point."""
from .ir import const

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule",
       "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge",
        "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def edge_conds(f, a, b):
    """comparisons (pred, x, y) implied by going from block a to block b"""
    t = f.blocks[a][-1]
    out = []
    if t.op == "br" and len(t.d["succ"]) == 2:
        s = t.d["succ"]
        if s[0] == s[1]:
            return out
        atoms(f, t.ops[0], s[0] == b, out)
    elif t.op == "switch":
        cs = [c for c, x in t.d["cases"] if x == b]
        if t.d["default"] == b:
            if not cs:
                for c, x in t.d["cases"]:
                    out.append(("ne", t.ops[0], ("c", c, 64)))
        elif len(cs) == 1:
            out.append(("eq", t.ops[0], ("c", cs[0], 64)))
    return out


def atoms(f, v, truth, out, depth=0):
    i = f.get(v)
    if i is None or depth > 12:
        return
    if i.op == "icmp":
        p = i.d["pred"]
        out.append((p if truth else NEG[p], i.ops[0], i.ops[1]))
        # (x != 0) applied to a stored boolean
        if const(i.ops[1]) == 0 and p in ("eq", "ne"):
            j = f.get(f.strip(i.ops[0]))
            if j is not None and j.ty == "i1":
                atoms(f, j.id, (p == "ne") == truth, out, depth + 1)
    elif i.op == "xor" and const(i.ops[1]) in (1, -1):
        atoms(f, i.ops[0], not truth, out, depth + 1)
    elif i.op in ("zext", "freeze", "trunc"):
        atoms(f, i.ops[0], truth, out, depth + 1)
    elif i.op == "and" and truth or i.op == "or" and not truth:
        for o in i.ops:
            atoms(f, o, truth, out, depth + 1)
    elif i.op == "select" and i.ty == "i1":
        c, x, y = i.ops
        if const(y) == 0 and truth:
            atoms(f, c, True, out, depth + 1)
            atoms(f, x, True, out, depth + 1)
        elif const(x) in (1, -1) and not truth:
            atoms(f, c, False, out, depth + 1)
            atoms(f, y, False, out, depth + 1)


def conds(f, bb):
    """comparisons that hold whenever block bb is entered"""
    c = f.__dict__.setdefault("_conds", {})
    if bb in c:
        return c[bb]
    out = []
    b = bb
    while True:
        ps = [p for p in f.preds[b] if p in f.idom]
        d = f.idom.get(b)
        # edges into b, ignoring loop back edges
        fw = [p for p in ps if not f.dominates_bb(b, p)]
        if len(fw) == 1 and len(ps) == 1:
            out.extend(edge_conds(f, fw[0], b))
        if d is None or d == b:
            break
        b = d
    c[bb] = out
    return out


def upper(f, v, bb, same=None):
    """smallest constant c with v <= c (unsigned) known at block bb"""
    best = None
    same = same or (lambda a: a == v)
    for p, x, y in conds(f, bb):
        if const(x) is not None and const(y) is None:
            p, x, y = SWAP[p], y, x
        c = const(y)
        if c is None or not same(x):
            continue
        if p == "eq" or p == "ule":
            u = c
        elif p == "ult":
            u = c - 1
        else:
            continue
        if best is None or u < best:
            best = u
    return best
