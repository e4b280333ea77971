"""Write sa/known-CONFIG.txt: the functions of /repo by file, name and type.

Functions that are not listed there are inlined before anything is analysed,
and a listed function that only changed its name gets that name back."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build  # noqa: E402

build.build_tool()
for c in build.CONFIGS:
    with build.Tree(c) as t:
        t.configure()
        t.compile()
        out = os.path.join(t.dir, "list")
        subprocess.run([build.IRX, "-o", "/dev/null", "-top",
                        build.REPO + "/", "-list", out] +
                       sorted(t.bc.values()), check=True)
        lines = sorted(set(open(out).read().splitlines()))
    p = os.path.join(build.VERIF, "sa", "known-%s.txt" % c)
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    print(p, len(lines))
