"""Functions of /repo compared with reference functions.

A reference file (sa/ref/NAME.c) is C compiled with the headers of /repo.
Each function ref_F__K in it is the K-th accepted form of the function F of
/repo.  Both are turned into value graphs on compiler IR, every callee
inlined except the boundary, and the graphs are compared: result, writes
through arguments on success, and the sequence of boundary calls."""
import os
import re

from . import vg
from .build import Broken, REPO, VERIF
from .insn import PIPE, describe
from .ir import Program

# calls that report and do nothing else
MUTE = """xlog_printf xlog_printf_raw xlog__trace xlog_error xlog_print
vreport report_error report_init""".split()


# where the function meant is defined, for names that are used twice
FILE = {"_dtor": "/host_instance.c", "read_u8": "/decode.c"}
# further functions of the same name
ALSO = {"dtor_memories": ("_dtor", "/shared_memory.c"),
        "dtor_dummies": ("_dtor", "/dummy_host_func.c")}


def source(path):
    """the text of a reference file, with the reference files it includes"""
    with open(path) as f:
        text = f.read()

    def sub(m):
        h = os.path.join(os.path.dirname(path), m.group(1))
        return source(h) if os.path.exists(h) else m.group(0)

    def struct(m):
        # a structure that only a file of /repo knows; without it, what
        # uses its members does not compile
        d = os.path.join(REPO, os.path.dirname(m.group(1)))
        for f in [os.path.basename(m.group(1))] + sorted(os.listdir(d)):
            if f.endswith((".c", ".h")) and \
                    os.path.exists(os.path.join(d, f)):
                with open(os.path.join(d, f)) as f:
                    x = re.search(r"^struct %s \{.*?^\}[^;]*;" % m.group(2),
                                  f.read(), re.M | re.S)
                if x is not None:
                    return x.group(0)
        return "struct %s;" % m.group(2)
    text = re.sub(r'^#include "([^"]+)"$', sub, text, flags=re.M)
    return re.sub(r'^#struct "([^"]+)" (\w+)$', struct, text, flags=re.M)


def define(text):
    """the text with our own meaning of the macros of /repo's headers"""
    with open(os.path.join(VERIF, "sa", "ref", "defs.h")) as f:
        defs = f.read()
    m = list(re.finditer(r"^#include .*\n", text, re.M))
    if not m:
        return text
    i = m[-1].end()
    return text[:i] + defs + text[i:]


def without(text, lines):
    """the text without the functions that contain some lines, and the names
    of the references among them; None if a line is in no function"""
    t = text.split("\n")
    gone = []
    for n in sorted(lines):
        a = b = n - 1
        while a > 0 and t[a] != "}" and not re.match(r"\w+\(", t[a]):
            a -= 1
        if not re.match(r"\w+\(", t[a]):
            return None, gone
        a -= 1
        while b < len(t) and t[b] != "}":
            b += 1
        if b == len(t) or not any(x == "{" for x in t[a:b]):
            return None, gone
        gone += re.findall(r"^ref_(\w+?)__\d+\(", "\n".join(t[a:b]), re.M)
        t[a:b + 1] = [""] * (b + 1 - a)
    return "\n".join(t), gone


def names(name):
    """the functions a reference file defines, in order"""
    text = source(os.path.join(VERIF, "sa", "ref", name + ".c"))
    return list(dict.fromkeys(re.findall(r"^ref_(\w+?)__\d+\(", text, re.M)))


class Set:
    def __init__(self, ctx, name, like, boundary, pipe=PIPE, unroll=None,
                 config="release", own=False):
        t = ctx.tree(config)
        path = os.path.join(VERIF, "sa", "ref", name + ".c")
        text = source(path)
        self.names = names(name)
        if not self.names:
            raise Broken("no reference in %s" % path)
        self.forms = {n: sorted(int(k) for k in re.findall(
            r"^ref_%s__(\d+)\(" % n, text, re.M)) for n in self.names}
        # a function that was merged into others, or whose parameters
        # changed, is compared as a part of those that call it
        self.merged = [n for n in self.names if n in t.changed()]
        text = "".join("#define %s ref_%s__0\n" % (n, n)
                       for n in self.merged) + define(text)
        self.names = [n for n in self.names if n not in self.merged]
        # a definition that mentions something that is gone says nothing
        self.lost = []
        while True:
            try:
                bc = t.compile_extra("ref_%s.c" % name, text, like)
                break
            except Broken as e:
                text, gone = without(text, getattr(e, "lines", None) or {1})
                if text is None:
                    raise
                self.lost += gone
        for n in self.lost:
            self.forms.pop(n, None)
        self.names = [n for n in self.names if n not in self.lost]
        if not self.names:
            raise Broken("no definition in %s compiles any more" % path)
        self.p = Program(t.extract(
            "refs_" + name, pipe, inline=["*"],
            noinline=[n for n in boundary + (self.names if own else [])
                      if n not in self.merged] + MUTE,
            unroll=unroll, drop=("exec_stat",),
            roots=self.names + [x for x, _ in ALSO.values()] + ["ref_*"],
            extra=[bc]))
        self.p.outer = lambda: ctx.prog(config=config)
        # what this configuration does not have
        here = {f.base for f in self.p.funcs.values()}
        self.names = [n for n in self.names
                      if "ref_%s__%d" % (n, self.forms[n][0]) in here]


ORDERS = 24


def compare(s, name, ignore, retval, mute, keep=None, given=None,
            clobber=()):
    """(function, None when equal else text, stuck reason)"""
    base, file = ALSO.get(name, (name, FILE.get(name, "")))
    fs = [f for f in s.p.funcs.values()
          if f.base == base and not f.decl]
    fs.sort(key=lambda f: not (f.file or "").endswith(file))
    if name in ALSO and not (fs and (fs[0].file or "").endswith(file)):
        return s.p.f("ref_%s__0" % name), None, "part of its callers"
    if not fs:
        raise Broken("function %s is gone" % name)
    f = fs[0]
    why = []
    stuck = None
    for k in s.forms[name]:
        r = s.p.f("ref_%s__%d" % (name, k))
        if [a[1] for a in r.args] != [a[1] for a in f.args]:
            raise Broken("the parameters of %s changed" % name)
        g = vg.Graph()
        try:
            b = vg.Eval(g, r, ignore, retval, keep, given, True, mute,
                        clobber)
            a = vg.Eval(g, f, ignore, retval, keep, given, True, mute,
                        clobber, not b.moving)
            d = vg.compare(g, a, b)
            perm = 0
            while d is not None and perm + 1 < min(a.perms, ORDERS):
                # variables of a loop may come in any order
                perm += 1
                g2 = vg.Graph()
                b2 = vg.Eval(g2, r, ignore, retval, keep, given, True, mute,
                             clobber)
                a2 = vg.Eval(g2, f, ignore, retval, keep, given, True, mute,
                             clobber, not b.moving, perm)
                if vg.compare(g2, a2, b2) is None:
                    d = None
        except vg.Stuck as e:
            stuck = str(e)
            continue
        if d is None:
            return f, None, None
        why.append(describe(g, d))
    if why:
        return f, why[0], None
    return f, None, stuck


def check(ctx, rep, rule, name, like, boundary, ignore=None, retval=None,
          mute=(), unroll=None, keep=None, clobber=(), config="release",
          names=None, own=False):
    k = (name, config)
    if k not in ctx.refs:
        ctx.refs[k] = Set(ctx, name, like, boundary, unroll=unroll,
                          config=config, own=own)
    s = ctx.refs[k]
    for n in names or ():
        if n in s.lost:
            rep.seen(rule)
            rep.seen("undecided")
            rep.sample("undecided: %s (its definition does not compile)" % n)
        elif n not in s.forms:
            raise Broken("no reference for %s" % n)
    for n in s.names:
        if names is not None and n not in names:
            continue
        rep.seen(rule)
        f, d, stuck = compare(s, n, ignore or {}, retval or {},
                              tuple(mute) + tuple(MUTE), keep, None, clobber)
        if d is not None:
            rep.bad(rule, n, "%s:%d" % (f.file, f.line), "%s: %s" % (n, d))
        elif stuck is not None:
            rep.seen("undecided")
            rep.sample("undecided: %s (%s)" % (n, stuck))
        else:
            rep.sample("%s (%s): equals its reference" % (n, f.file))
    return s
