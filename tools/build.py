"""Builds the simulator and the rank libraries from /repo's working tree.

/repo/src and /repo/lib are mirrored by content into build/mirror (so that
time stamps never matter); everything is then compiled incrementally by ninja.
"""
import filecmp
import glob
import os
import shutil
import subprocess
import sys
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NLIBS = 8
CXX = "/usr/bin/clang++"
CC = "/usr/bin/clang"

SLOW = ["temperedlb", "lb_manager", "runtime.cc", "lb_data_restart_reader",
        "node_lb_data", "offlinelb", "phase_manager", "hierarchicallb", "arg_config",
        "elm_lb_data", "term.cc", "lb_data_holder", "component_packer", "balance"]


def mirror(sub, exts):
    """Copy REPO/sub to BUILD/mirror/sub where the content differs."""
    src = os.path.join(REPO, sub)
    dst = os.path.join(BUILD, "mirror", sub)
    seen = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x != ".git"]
        rel = os.path.relpath(d, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            if exts and not f.endswith(exts):
                continue
            a = os.path.join(d, f)
            b = os.path.normpath(os.path.join(dst, rel, f))
            seen.add(b)
            if not (os.path.exists(b) and filecmp.cmp(a, b, shallow=False)):
                shutil.copyfile(a, b)
    for d, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.join(d, f))
            if p not in seen:
                os.unlink(p)


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def generate():
    m = os.path.join(BUILD, "mirror")
    sim = os.path.join(VERIF, "sim")
    inc = ["-I%s/shim" % sim, "-I%s/include" % sim, "-I%s/src" % m, "-I%s/lib/CLI" % m,
           "-I%s/lib/fmt/include" % m, "-I%s/lib/EngFormat-Cpp/include" % m,
           "-I%s/lib/json/include" % m, "-I%s/lib/yaml-cpp/include" % m,
           "-I%s/lib/brotli/c/include" % m, "-I%s/lib/context/src" % m]
    common = "-fPIC -w -fvisibility=hidden -fvisibility-inlines-hidden -ffile-prefix-map=%s/=" % m
    o = []
    o.append("ninja_required_version = 1.5")
    o.append("builddir = %s" % BUILD)
    o.append("cxx = %s" % CXX)
    o.append("vtflags = -std=c++17 -O0 -gline-tables-only %s %s" % (common, " ".join(inc)))
    o.append("libflags = -O1 %s %s" % (common, " ".join(inc)))
    o.append("""
rule pch
  command = $cxx $vtflags -x c++-header -fpch-instantiate-templates -MD -MF $out.d $in -o $out
  depfile = $out.d
  deps = gcc
  description = PCH
rule vt
  command = $cxx $vtflags -include-pch %(b)s/vsim.pch -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $in
rule lib
  command = $cxx $libflags -std=c++17 -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule clib
  command = %(cc)s $libflags -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule eng
  command = $cxx -std=c++17 -O2 -g -Wall %(inc)s -I%(sim)s/engine -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule ar
  command = rm -f $out && ar crs $out $in
rule exe
  command = $cxx -fuse-ld=lld -rdynamic $in -o $out -ldl
rule so
  command = $cxx -fuse-ld=lld -shared -Wl,-Bsymbolic -Wl,--undefined-version -Wl,--version-script=%(sim)s/rank.map -Wl,-z,nodelete -o $out $in -lz
""" % dict(b=BUILD, cc=CC, sim=sim, inc=" ".join(inc[:2])))
    o.append("build %s/vsim.pch: pch %s/shim/vsim_pch.h" % (BUILD, sim))
    libs = []
    srcs = [m + "/lib/fmt/src/format.cc", m + "/lib/EngFormat-Cpp/src/eng_format.cpp"]
    srcs += sorted(glob.glob(m + "/lib/yaml-cpp/src/*.cpp"))
    srcs += sorted(glob.glob(m + "/lib/context/src/context/*.cc"))
    for s in srcs:
        x = BUILD + "/obj/" + os.path.relpath(s, m).replace("/", "_") + ".o"
        libs.append(x)
        o.append("build %s: lib %s" % (x, s))
    csrcs = []
    for d in ("common", "dec", "enc"):
        csrcs += sorted(glob.glob(m + "/lib/brotli/c/%s/*.c" % d))
    for f in ("make", "jump", "ontop"):
        csrcs.append(m + "/lib/context/src/context/asm/%s_x86_64_sysv_elf_gas.S" % f)
    for s in csrcs:
        x = BUILD + "/obj/" + os.path.relpath(s, m).replace("/", "_") + ".o"
        libs.append(x)
        o.append("build %s: clib %s" % (x, s))
    o.append("build %s/libvendor.a: ar %s" % (BUILD, " ".join(libs)))
    vt = sorted(glob.glob(m + "/src/vt/**/*.cc", recursive=True))
    vt.sort(key=lambda s: next((i for i, k in enumerate(SLOW) if k in s), 99))
    vt.append(sim + "/shim/git_revision.cc")
    objs = []
    for s in vt:
        x = BUILD + "/obj/" + (os.path.relpath(s, m) if s.startswith(m) else os.path.basename(s)).replace("/", "_") + ".o"
        objs.append(x)
        o.append("build %s: vt %s | %s/vsim.pch" % (x, s, BUILD))
    eng = []
    for s in sorted(glob.glob(sim + "/engine/*.cc")):
        x = BUILD + "/obj/engine_" + os.path.basename(s) + ".o"
        eng.append(x)
        o.append("build %s: eng %s" % (x, s))
    o.append("build %s/vsim: exe %s" % (BUILD, " ".join(eng)))
    allobj = objs
    for s in sorted(glob.glob(sim + "/workloads/*.cc")):
        w = os.path.basename(s)[:-3]
        x = BUILD + "/obj/workload_%s.o" % w
        o.append("build %s: vt %s | %s/vsim.pch" % (x, s, BUILD))
        o.append("build %s/rank/%s.so: so %s %s %s/libvendor.a | %s/rank.map" % (BUILD, w, x, " ".join(allobj), BUILD, sim))
        o.append("build %s: phony %s/rank/%s.so %s/vsim" % (w, BUILD, w, BUILD))
    write_if_changed(BUILD + "/build.ninja", "\n".join(o) + "\n")


def build(targets, quiet=True):
    """Returns None, or the compiler output of a failed build."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/rank", exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror("src", None)
        if not os.path.exists(BUILD + "/mirror/lib/.done"):
            mirror("lib", (".h", ".hpp", ".c", ".cc", ".cpp", ".S", ".inc"))
            open(BUILD + "/mirror/lib/.done", "w").close()
        generate()
        p = subprocess.run(["/usr/bin/ninja", "-C", BUILD, "-j", "10"] + (["--quiet"] if quiet else []) + list(targets),
                           stdout=subprocess.PIPE if quiet else None, stderr=subprocess.STDOUT, text=True)
        return None if p.returncode == 0 else (p.stdout or "build failed")


if __name__ == "__main__":
    r = build(sys.argv[1:], quiet=False)
    if r:
        print(r)
        sys.exit(2)
