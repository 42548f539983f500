"""Builds harness binaries from /repo's current working tree (never from a copy).

The list of HelFEM sources is read from the repository's own CMake lists, so a
source file that a change adds to a library is picked up. Objects land in
/verif/_build (git-ignored) and are rebuilt by ninja when anything changed.
"""
import os, re, subprocess, sys, hashlib, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "_build")

def strip_comments(t):
    return re.sub(r"#[^\n]*", "", t)

def cmake_lib(path, name):
    t = strip_comments(open(os.path.join(REPO, path, "CMakeLists.txt")).read())
    m = re.search(r"add_library\(\s*%s\b([^)]*)\)" % re.escape(name), t)
    srcs = [s for s in m.group(1).split() if s.endswith(".cpp")]
    return [os.path.join(REPO, path, s) for s in srcs]

def groups():
    """HelFEM's library sources, by group. Everything new under a directory joins its group."""
    g = {"core": cmake_lib("libhelfem", "helfem") + cmake_lib("libhelfemqc", "helfemqc") + cmake_lib("src", "legendre"),
         "general": [], "checkpoint": [], "atomic": [], "sadatom": [], "sadscf": [os.path.join(VERIF, "shim", "vshim_solver.cpp")], "diatomic": []}
    for s in cmake_lib("src", "helfem-common"):
        if s.endswith("general/atomdb_data.cpp"):
            s = os.path.join(VERIF, "shim", "atomdb_data.cpp")
        rel = os.path.relpath(s, REPO)
        if rel == "src/general/checkpoint.cpp":
            g["checkpoint"].append(s)
        elif rel == "src/sadatom/scf.cpp":
            g["sadscf"].append(s)
        elif rel.startswith("src/atomic/"):
            g["atomic"].append(s)
        elif rel.startswith("src/sadatom/"):
            g["sadatom"].append(s)
        elif rel.startswith("src/diatomic/"):
            g["diatomic"].append(s)
        else:
            g["general"].append(s)
    return g

ORDER = ["sadscf", "diatomic", "checkpoint", "sadatom", "atomic", "general", "core"]

BASE = "-std=gnu++23 -O1 -g0 -fopenmp -D_GLIBCXX_ASSERTIONS -w".split()

def gen_headers():
    """configure_file() equivalents."""
    inc = os.path.join(B, "include")
    os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(REPO, "libhelfem/include/helfem.source.h")).read()
    src = re.sub(r"\$\{[A-Za-z_0-9]*\}|@[A-Za-z_0-9]+@", "v0.0.1-alpha", src)
    p = os.path.join(inc, "helfem.h")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    return inc

def pkg(flag, name):
    try:
        return subprocess.run(["pkg-config", flag, name], capture_output=True, text=True).stdout.split()
    except Exception:
        return []

def hdf5():
    for d in ("/usr/include/hdf5/serial",):
        if os.path.isdir(d):
            return ["-I" + d], ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5"]
    return [], ["-lhdf5"]

def write_ninja(flavour="std"):
    """One ninja file per flavour: static library of HelFEM + every harness binary."""
    inc = gen_headers()
    hi, hl = hdf5()
    eig = "/usr/include/eigen3"
    incs = ["-I" + os.path.join(VERIF, "shim"), "-I" + inc,
            "-I" + REPO + "/libhelfem/include", "-I" + REPO + "/libhelfem/src",
            "-I" + REPO + "/libhelfemqc/include", "-I" + REPO + "/libhelfemqc/src",
            "-I" + REPO + "/src", "-I" + REPO + "/src/general", "-I" + eig] + hi + pkg("--cflags", "libxc")
    flags = list(BASE)
    if flavour == "quad":
        flags += ["-DHELFEM_HAVE_FLOAT128"]
    lflags = ["-fopenmp"]
    if flavour == "asan":
        flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-O1"]
        lflags += ["-fsanitize=address,undefined"]
    if flavour == "tsan":
        flags += ["-fsanitize=thread", "-O1"]
        lflags += ["-fsanitize=thread"]
    libs = (pkg("--libs", "libxc") or ["-lxc"]) + hl + ["-lquadmath", "-lgsl" if os.path.exists("/usr/include/gsl") else "", "-lm", "-lpthread"]
    libs = [l for l in libs if l]
    od = os.path.join(B, "obj-" + flavour)
    os.makedirs(od, exist_ok=True)
    L = []
    L.append("ninja_required_version = 1.5")
    L.append("builddir = %s" % od)
    L.append("cxx = g++-14")
    L.append("flags = " + " ".join(flags))
    L.append("incs = " + " ".join(incs))
    L.append("rule cc\n  command = $cxx $flags $xflags $incs -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    L.append("rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out")
    L.append("rule ld\n  command = $cxx %s -Wl,--start-group $in -Wl,--end-group -o $out %s\n  description = LD $out" % (" ".join(lflags), " ".join(libs)))
    def obj(src):
        tag = src.replace(REPO, "repo").replace(VERIF, "verif").strip("/").replace("/", "_")
        return os.path.join(od, tag + ".o")
    glib = {}
    for gname, gs in groups().items():
        objs = []
        for s in gs:
            o = obj(s)
            L.append("build %s: cc %s" % (o, s))
            if s.endswith("/sap.cpp") or s.endswith("atomdb_data.cpp"):
                L.append("  xflags = -O0")
            objs.append(o)
        glib[gname] = os.path.join(od, "lib%s.a" % gname)
        L.append("build %s: ar %s" % (glib[gname], " ".join(objs)))
    def liblist(names):
        return " ".join(glib[n] for n in ORDER if n in names)
    bins = os.path.join(B, "bin-" + flavour)
    os.makedirs(bins, exist_ok=True)
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith(".cpp"):
            s = os.path.join(hd, f)
            o = obj(s)
            L.append("build %s: cc %s" % (o, s))
            m = re.search(r"^// LIBS:(.*)$", open(s).read(), re.M)
            names = m.group(1).split() if m else ["core"]
            L.append("build %s: ld %s %s" % (os.path.join(bins, f[:-4]), o, liblist(names)))
    # the programs
    for name, path in PROGRAMS.items():
        s = os.path.join(REPO, path)
        if os.path.exists(s):
            o = obj(s)
            L.append("build %s: cc %s" % (o, s))
            L.append("build %s: ld %s %s" % (os.path.join(bins, "prog_" + name), o, liblist(ORDER)))
    p = os.path.join(B, "build-%s.ninja" % flavour)
    t = "\n".join(L) + "\n"
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return p, bins

PROGRAMS = {
    "atomic": "src/atomic/main.cpp",
    "diatomic": "src/diatomic/main.cpp",
    "gensap": "src/sadatom/main.cpp",
    "aij": "src/sadatom/aij.cpp",
    "1e_atom": "src/sadatom/1e.cpp",
    "diatomic_1e": "src/diatomic/1e.cpp",
    "diatomic_cbasis": "src/diatomic/corebasis.cpp",
    "diatomic_cpl": "src/diatomic/completeness.cpp",
    "diatomic_dline": "src/diatomic/density_line.cpp",
    "diatomic_dgrid": "src/diatomic/density_grid.cpp",
    "harmonic": "src/harmonic/main.cpp",
    "morse": "src/harmonic/morse.cpp",
    "softcoulomb": "src/harmonic/softcoulomb.cpp",
    "precision": "src/harmonic/precision.cpp",
    "atomic_precision": "src/atomic/precision.cpp",
    "atomdb_dump": "src/general/atomdb_dump.cpp",
}

def build(targets, flavour="std", quiet=True):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nj, bins = write_ninja(flavour)
        tl = [os.path.join(bins, t) for t in targets]
        r = subprocess.run(["ninja", "-f", nj, "-j", str(max(2, os.cpu_count() or 2))] + tl,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + "\n")
        return None
    return bins

if __name__ == "__main__":
    fl = "std"
    t = sys.argv[1:]
    if t and t[0].startswith("--flavour="):
        fl = t.pop(0).split("=")[1]
    if t == ["--toolcheck"]:
        for tool in ("g++-14", "ninja", "ar"):
            subprocess.run([tool, "--version"], check=True, stdout=subprocess.DEVNULL)
        print("tools present")
        sys.exit(0)
    b = build(t, fl)
    print(b)
    sys.exit(0 if b else 2)
