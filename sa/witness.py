"""Constants and members of /repo's headers: compile-time witnesses.

Every line of sa/ref/facts.txt becomes a line of C that the compiler rejects
when it is not true: a static assertion, or the assignment of the largest
value to a member with "this conversion changes the value" as an error.  What
does not exist any more says nothing."""
import os
import re
import subprocess

from .build import Broken, REPO, VERIF

FALSE = re.compile(r"static assertion failed|"
                   r"\[-W(error,-W)?(bitfield-)?constant-conversion")


def facts():
    out = []
    with open(os.path.join(VERIF, "sa", "ref", "facts.txt")) as f:
        for n, line in enumerate(f, 1):
            w = line.split()
            if not w or w[0].startswith("#"):
                continue
            if w[0] == "=":
                like = [x[1:-1] for x in w if x.startswith("[")]
                out.append((like[0] if like else "lib/exec.c",
                            [x for x in w[1:] if not x.startswith("[")], []))
                continue
            i = [k for k, x in enumerate(w) if x in ("is", "holds")][0]
            out[-1][2].append((w[:i], w[i], w[i + 1:]))
    return out


def decide(t):
    """{fact: True, False or None}, with its text"""
    res = []
    for k, (like, headers, fs) in enumerate(facts()):
        text = ["#include <%s>" % h for h in (
            "errno.h", "limits.h", "stdbool.h", "stddef.h", "stdint.h",
            "stdio.h", "time.h")]
        text += ['#include "%s"' % h for h in headers]
        at = {}
        for ids, kind, w in fs:
            at[len(text) + 1] = (ids, kind, w)
            if kind == "is":
                text.append('_Static_assert(%s, "");' % " ".join(w))
            else:
                text.append("void w%d(struct %s *x); void w%d(struct %s *x) "
                            "{ x->%s = %s; }" % (len(text), w[0], len(text),
                                                 w[0], w[1], " ".join(w[2:])))
        name = "facts%d.c" % k
        src = os.path.join(t.dir, name)
        with open(src, "w") as f:
            f.write("\n".join(text) + "\n")
        c = [c for c in t.cmds if os.path.relpath(c["file"], REPO) == like]
        if not c:
            raise Broken("%s is not compiled any more" % like)
        p = subprocess.run(
            ["clang-18"] + t._flags(c[0]) +
            ["-I", os.path.join(REPO, os.path.dirname(like)),
             "-ferror-limit=0", "-fno-caret-diagnostics", "-Wno-error",
             "-Wconstant-conversion", "-Wbitfield-constant-conversion",
             "-fsyntax-only", src],
            cwd=c[0]["directory"], stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        bad = {}
        for line in p.stdout.splitlines():
            m = re.match(r"[^:]*%s:(\d+):\d+: ((?:fatal )?error|warning): (.*)" %
                         re.escape(name), line)
            if m and (m.group(2) != "warning" or FALSE.search(m.group(3))):
                bad.setdefault(int(m.group(1)), []).append(m.group(3))
        lost = any(n not in at for n in bad) or \
            (p.returncode != 0 and not bad)
        for n, (ids, kind, w) in at.items():
            v = True
            if lost:
                v = None
            elif n in bad:
                v = False if all(FALSE.search(x) for x in bad[n]) else None
            res.append((ids, kind, w, v))
    return res


def check(ctx, rep, pid):
    """the facts a property rests on"""
    if not hasattr(ctx, "facts"):
        ctx.facts = decide(ctx.tree())
    mine = [f for f in ctx.facts if pid in f[0]]
    if not mine:
        return
    rep.rule("facts", "constants have the value the standard gives them, and "
             "members are wide enough for what is kept in them (decided by "
             "the compiler: static assertions, value-changing conversions)")
    for ids, kind, w, v in mine:
        rep.seen("facts")
        if v is None:
            rep.seen("undecided")
            rep.sample("undecided: %s" % " ".join(w))
        elif v:
            continue
        elif kind == "is":
            rep.bad("facts", "_".join(w)[:60], "headers",
                    "not true: %s" % " ".join(w))
        else:
            rep.bad("facts", "%s.%s" % (w[0], w[1]), "struct %s" % w[0],
                    "member %s of struct %s cannot hold %s" %
                    (w[1], w[0], " ".join(w[2:])))
