"""The functions that read the name section and look names up are turned into
value graphs on compiler IR and compared with their definitions in
sa/ref/names.c."""
from .. import nameref


def check(ctx, rep):
    rep.rule("names", "a name shown for a function is the one the name section "
             "or an export gives it, and a malformed section gives none")
    nameref.check(ctx, rep, "names", None)
