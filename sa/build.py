"""Turn /repo's current working tree into LLVM bitcode and load it."""
import concurrent.futures
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
IRX = os.path.join(BUILD, "irx")

# the feature set of the project's all_features.sh (littlefs is not available)
FEATURES = [
    "-DTOYWASM_ENABLE_WASM_EXCEPTION_HANDLING=ON",
    "-DTOYWASM_ENABLE_WASM_EXTENDED_CONST=ON",
    "-DTOYWASM_ENABLE_WASM_MULTI_MEMORY=ON",
    "-DTOYWASM_ENABLE_WASM_TAILCALL=ON",
    "-DTOYWASM_ENABLE_WASM_THREADS=ON",
    "-DTOYWASM_ENABLE_WASI_THREADS=ON",
    "-DTOYWASM_ENABLE_WASM_CUSTOM_PAGE_SIZES=ON",
    "-DTOYWASM_ENABLE_DYLD=ON",
    "-DTOYWASM_ENABLE_DYLD_DLFCN=ON",
    "-DTOYWASM_EXTRA_CFLAGS=-Wno-error",
]

CONFIGS = {
    # what clang-release builds: assertions off
    "release": ["-DCMAKE_BUILD_TYPE=Release"],
    # what the wasm32 build selects: threads multiplexed in user space
    "usched": ["-DCMAKE_BUILD_TYPE=Release", "-DTOYWASM_USE_USER_SCHED=ON",
               "-DTOYWASM_USE_TAILCALL=OFF"],
}


class Broken(Exception):
    """The analysis could not be carried out (neither holds nor violated)."""


def build_tool():
    src = os.path.join(VERIF, "tool", "irx.cpp")
    if os.path.exists(IRX) and os.path.getmtime(IRX) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    cfg = subprocess.run(["llvm-config-18", "--cxxflags"], check=True,
                         capture_output=True, text=True).stdout.split()
    ld = subprocess.run(["llvm-config-18", "--ldflags"], check=True,
                        capture_output=True, text=True).stdout.split()
    tmp = IRX + ".%d" % os.getpid()
    subprocess.run(["clang++-18", "-O1"] + cfg + ["-fno-rtti", "-o", tmp, src]
                   + ld + ["-lLLVM-18"], check=True)
    os.replace(tmp, IRX)


class Tree:
    """A scratch directory with the compiled form of /repo."""

    def __init__(self, config="release"):
        self.config = config
        self.dir = tempfile.mkdtemp(prefix="toywasm-sa-")
        self.bc = {}
        self.cmds = []
        self._changed = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def configure(self):
        env = dict(os.environ)
        for k in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS",
                  "CMAKE_TOOLCHAIN_FILE", "DESTDIR"):
            env.pop(k, None)
        cfg = os.path.join(self.dir, "cfg")
        p = subprocess.run(
            ["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja",
             "-DCMAKE_C_COMPILER=/usr/bin/clang-18", "-DBUILD_TESTING=OFF",
             "-DTOYWASM_BUILD_UNITTEST=OFF",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
            + CONFIGS[self.config] + FEATURES,
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True)
        if p.returncode != 0:
            raise Broken("cmake failed:\n" + p.stdout[-2000:])
        with open(os.path.join(cfg, "compile_commands.json")) as f:
            self.cmds = json.load(f)
        if not self.cmds:
            raise Broken("no compile commands")

    def _flags(self, c):
        words = shlex.split(c["command"])
        out = []
        skip = False
        for w in words[1:]:
            if skip:
                skip = False
                continue
            if w == "-o":
                skip = True
                continue
            if w == "-c" or w == c["file"] or w.startswith("-O") \
               or w.startswith("-flto") or w == "-fomit-frame-pointer":
                continue
            out.append(w)
        # these two only affect code generation
        res = []
        i = 0
        while i < len(out):
            if out[i] in ("-Xclang", "-mllvm") and i + 1 < len(out) and \
               "merge" in out[i + 1]:
                i += 2
                continue
            res.append(out[i])
            i += 1
        return res

    def compile(self, select=None):
        """Compile every file (or those select(path) accepts) to bitcode."""
        jobs = []
        seen = set()
        for c in self.cmds:
            f = c["file"]
            rel = os.path.relpath(f, REPO)
            if f in seen or not f.endswith(".c"):
                continue
            seen.add(f)
            if select is not None and not select(rel):
                continue
            out = os.path.join(self.dir, hashlib.sha1(
                f.encode()).hexdigest()[:12] + ".bc")
            cmd = ["clang-18", "-w"] + self._flags(c) + [
                "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
                "-fno-discard-value-names", "-emit-llvm", "-c", f, "-o", out]
            jobs.append((rel, out, cmd, c["directory"]))

        def one(j):
            p = subprocess.run(j[2], cwd=j[3], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            return j, p
        with concurrent.futures.ThreadPoolExecutor(
                max_workers=os.cpu_count() or 4) as ex:
            for j, p in ex.map(one, jobs):
                if p.returncode != 0:
                    raise Broken("cannot compile %s:\n%s" %
                                 (j[0], p.stdout[-2000:]))
                self.bc[j[0]] = j[1]
        if not self.bc:
            raise Broken("no source file selected")

    def compile_extra(self, name, text, like):
        """Compile a C text with the flags of a file of /repo."""
        src = os.path.join(self.dir, name)
        out = src + ".bc"
        with open(src, "w") as f:
            f.write(text)
        c = [c for c in self.cmds
             if os.path.relpath(c["file"], REPO) == like]
        if not c:
            raise Broken("%s is not compiled any more" % like)
        p = subprocess.run(
            ["clang-18", "-w"] + self._flags(c[0]) +
            ["-I", os.path.join(REPO, os.path.dirname(like)),
             "-ferror-limit=0", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
             "-fno-discard-value-names", "-emit-llvm", "-c", src, "-o", out],
            cwd=c[0]["directory"], stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            e = Broken("cannot compile %s:\n%s" % (name, p.stdout[:2000]))
            e.lines = {int(n) for n in re.findall(
                r"^[^\n:]*%s:(\d+):\d+: (?:fatal )?error:" % re.escape(name),
                p.stdout, re.M)}
            raise e
        return out

    def changed(self):
        """the functions of sa/known-CONFIG.txt that are gone, or whose type
        is different now"""
        if self._changed is None:
            out = os.path.join(self.dir, "list")
            known = os.path.join(VERIF, "sa", "known-%s.txt" % self.config)
            p = subprocess.run(
                [IRX, "-o", "/dev/null", "-top", REPO + "/",
                 "-inline-unknown", known, "-list", out] +
                sorted(self.bc.values()), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Broken("irx failed:\n" + p.stdout[-2000:])

            def read(name):
                with open(name) as f:
                    return {tuple(x.split("\t")[1:])
                            for x in f.read().splitlines()}
            self._changed = {n for n, _ in read(known) - read(out)}
        return self._changed

    def extract(self, tag, pipeline, inline=None, noinline=None, known=True,
                only=None, files=None, unroll=None, roots=None, extra=(),
                drop=()):
        """Link + normalise + dump; returns the path of the JSON lines."""
        out = os.path.join(self.dir, tag + ".jsonl")
        cmd = [IRX, "-o", out, "-pipeline", pipeline]

        def lst(name, items):
            p = os.path.join(self.dir, tag + "." + name)
            with open(p, "w") as f:
                f.write("\n".join(sorted(items)) + "\n")
            return p
        if known:
            cmd += ["-top", REPO + "/", "-inline-unknown", os.path.join(
                VERIF, "sa", "known-%s.txt" % self.config)]
        if inline:
            cmd += ["-inline", lst("inline", inline)]
        if noinline:
            cmd += ["-noinline", lst("noinline", noinline)]
        if only:
            cmd += ["-only", lst("only", only)]
        if unroll:
            cmd += ["-unroll", str(unroll)]
        for d in drop:
            cmd += ["-drop-struct", d]
        if roots:
            cmd += ["-roots", lst("roots", roots)]
        bcs = list(extra) + sorted(v for k, v in self.bc.items()
                     if files is None or files(k))
        if not bcs:
            raise Broken("no bitcode selected")
        p = subprocess.run(cmd + bcs, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("irx failed:\n" + p.stdout[-2000:])
        return out
