#!/usr/bin/env python3
"""Build description for the checks.

sync():   mirrors /repo's sources into <build>/src by *content*, so that a file
          whose bytes did not change keeps its mtime and nothing is rebuilt.
gen():    writes <build>/build.ninja: phasar's libraries (every .cpp below
          /repo/lib except the Clang front end and the pass plugin), and one
          executable per harness/props/*.cpp.
build():  runs ninja for the given targets.
"""
import os, re, subprocess, sys, filecmp, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PHASAR_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
CXX = "/usr/bin/clang++-14"

SYNC_DIRS = ["include", "lib", "config", "tools/phasar-cli"]
EXCLUDE = ("lib/PhasarClang/", "lib/PhasarPass/")


def sync():
    wanted = set()
    changed = 0
    for d in SYNC_DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            rel = os.path.relpath(root, REPO)
            os.makedirs(os.path.join(SRC, rel), exist_ok=True)
            for f in files:
                r = os.path.join(rel, f)
                wanted.add(r)
                s, t = os.path.join(REPO, r), os.path.join(SRC, r)
                try:
                    with open(s, "rb") as fh:
                        data = fh.read()
                except FileNotFoundError:
                    continue
                try:
                    with open(t, "rb") as fh:
                        if fh.read() == data:
                            continue
                except FileNotFoundError:
                    pass
                with open(t, "wb") as fh:
                    fh.write(data)
                changed += 1
    for d in SYNC_DIRS:
        for root, dirs, files in os.walk(os.path.join(SRC, d)):
            rel = os.path.relpath(root, SRC)
            for f in files:
                r = os.path.join(rel, f)
                if r not in wanted:
                    os.remove(os.path.join(SRC, r))
                    changed += 1
    return changed


COMMON = ("-std=c++17 -fPIC -pipe -w -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS "
          "-D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "
          f"-DPHASAR_SRC_DIR='\"/repo\"' -DPHASAR_BUILD_DIR='\"/repo/_build\"' "
          "-isystem /usr/lib/llvm-14/include -Isrc/include "
          f"-I{HERE}/gen -I{HERE}/shim -I{HERE}/common -isystem /usr/lib/llvm-14/include")
CFGS = {
    # name: extra flags
    "std": "-O1 -g0 -fno-omit-frame-pointer",
    "san": "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined "
           "-fno-sanitize-recover=undefined -fno-sanitize=vptr,function",
}
LDLIBS = ("-Wl,-rpath,/usr/lib/llvm-14/lib -L/usr/lib/x86_64-linux-gnu -lstdc++fs -lsqlite3 "
          "-lboost_graph -lboost_regex /usr/lib/llvm-14/lib/libLLVM-14.so.1 -lz3 -lpthread -ldl")


def libname(rel):
    # rel: lib/PhasarLLVM/DataFlow/IfdsIde/Problems/X.cpp -> archive name
    d = os.path.dirname(rel)
    return d.replace("/", "_")


def gen():
    libs = {}
    for root, dirs, files in os.walk(os.path.join(SRC, "lib")):
        dirs.sort()
        rel = os.path.relpath(root, SRC)
        if (rel + "/").startswith(EXCLUDE):
            continue
        for f in sorted(files):
            if f.endswith(".cpp"):
                libs.setdefault(rel.replace("/", "_"), []).append(os.path.join(rel, f))
    o = []
    w = o.append
    w("ninja_required_version = 1.5")
    w(f"cxx = {CXX}")
    w(f"common = {COMMON}")
    for c, fl in CFGS.items():
        w(f"flags_{c} = {fl}")
        w(f"rule pch_{c}\n  command = $cxx $common $flags_{c} -x c++-header {HERE}/pch.h -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = PCH {c}")
        w(f"rule cxx_{c}\n  command = $cxx $common $flags_{c} -include-pch pch_{c}.pch $xflags -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = CXX {c} $in")
        w(f"rule link_{c}\n  command = $cxx $flags_{c} -fuse-ld=lld -rdynamic $in -Wl,--start-group $libs -Wl,--end-group {LDLIBS} -o $out\n  description = LINK $out")
        w(f"build pch_{c}.pch: pch_{c} {HERE}/pch.h")
    w("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out")
    allars = []
    for l in sorted(libs):
        objs = []
        for s in libs[l]:
            ob = "obj/" + s[:-4] + ".o"
            w(f"build {ob}: cxx_std src/{s} | pch_std.pch")
            objs.append(ob)
        a = f"ar/{l}.a"
        allars.append(a)
        w(f"build {a}: ar {' '.join(objs)}")
    w(f"build libs: phony {' '.join(allars)}")
    # harness executables
    common = sorted(f for f in os.listdir(os.path.join(HERE, "common")) if f.endswith(".cpp"))
    usan = {"std": [], "san": []}
    exes = []
    props = sorted(f for f in os.listdir(os.path.join(HERE, "props")) if f.endswith(".cpp"))
    need = {}
    for p in props:
        text = open(os.path.join(HERE, "props", p)).read()
        m = re.search(r"//\s*BUILD:(.*)", text)
        opts = m.group(1).split() if m else []
        cfg = "san" if "san" in opts else "std"
        need[p] = (cfg, "nolibs" in opts, "cli" in opts)
    for cfg in CFGS:
        if not any(v[0] == cfg for v in need.values()):
            continue
        for c in common:
            ob = f"obj/{cfg}/common/{c[:-4]}.o"
            w(f"build {ob}: cxx_{cfg} {HERE}/common/{c} | pch_{cfg}.pch")
    for p in props:
        cfg, nolibs, cli = need[p]
        ob = f"obj/{cfg}/props/{p[:-4]}.o"
        w(f"build {ob}: cxx_{cfg} {HERE}/props/{p} | pch_{cfg}.pch")
        cobs = [f"obj/{cfg}/common/{c[:-4]}.o" for c in common if not (nolibs and c != "pbt.cpp")]
        ars = [] if nolibs else allars
        exe = f"bin/{p[:-4]}"
        w(f"build {exe}: link_{cfg} {ob} {' '.join(cobs)} | {' '.join(ars)}{' bin/phasar-cli' if cli else ''}\n  libs = {' '.join(ars)}")
        exes.append(exe)
    # the command line tool
    objs = []
    for root, dirs, files in os.walk(os.path.join(SRC, "tools/phasar-cli")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                s = os.path.relpath(os.path.join(root, f), SRC)
                ob = "obj/" + s[:-4] + ".o"
                w(f"build {ob}: cxx_std src/{s} | pch_std.pch")
                objs.append(ob)
    w(f"build bin/phasar-cli: link_std {' '.join(objs)} | {' '.join(allars)}\n  libs = {' '.join(allars)}")
    w(f"build all: phony {' '.join(exes)}")
    w("default all")
    text = "\n".join(o) + "\n"
    path = os.path.join(BUILD, "build.ninja")
    try:
        if open(path).read() == text:
            return
    except FileNotFoundError:
        pass
    with open(path, "w") as fh:
        fh.write(text)


def build(targets, log=None):
    os.makedirs(BUILD, exist_ok=True)
    sync()
    gen()
    cmd = ["ninja", "-C", BUILD] + list(targets)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


if __name__ == "__main__":
    rc, out = build(sys.argv[1:])
    print(out[-20000:] if rc else out[-300:])
    sys.exit(rc)
