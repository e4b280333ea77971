"""Tables of functions in the program's constants."""


def entries(p, func):
    """the rows of constant tables that mention a function, each as
    (table, row number, {offset: operand})"""
    out = []

    def rows(name, init):
        if init[0] != "agg":
            return
        for n, row in enumerate(init[1]):
            if isinstance(row, str) or row[0] != "agg" or len(row) < 4:
                continue
            if any(x == "@" + func or isinstance(x, str) and
                   x[1:].split(".")[0] == func for x in row[1]):
                out.append((name, n, dict(zip(row[3], row[1]))))
    for name, g in sorted(p.globals.items()):
        if g["const"] and "init" in g and not isinstance(g["init"], str):
            rows(name, g["init"])
    return out


def number(x):
    return int(x[1]) if not isinstance(x, str) and x[0] == "c" else None


def text(p, x):
    if not isinstance(x, str):
        return None
    g = p.globals.get(x[1:])
    if g is None or "init" not in g:
        return None
    if g["init"][0] == "str":
        return g["init"][1].rstrip("\0")
    return "" if g["init"][0] == "zero" else None


def aggregates(p):
    """constant tables as (name, rows), a row being its operands; a table
    that is one structure has one row"""
    out = []
    for name, g in sorted(p.globals.items()):
        if not g["const"] or "init" not in g or isinstance(g["init"], str) \
           or g["init"][0] != "agg":
            continue
        if len(g["init"]) > 3:
            out.append((name, [g["init"][1]]))
        elif all(not isinstance(r, str) and r[0] == "agg"
                 for r in g["init"][1]):
            out.append((name, [r[1] for r in g["init"][1]]))
    return out


def name(p, x):
    """the text of a struct name, given itself or by address"""
    if isinstance(x, str):
        g = p.globals.get(x[1:])
        x = g.get("init") if g else None
    if x is None or isinstance(x, str) or x[0] != "agg" or len(x[1]) != 2:
        return None
    n, t = number(x[1][0]), text(p, x[1][1])
    if n is None or t is None:
        return None
    return t[:n] if n <= len(t) else t + "\0" * (n - len(t))
