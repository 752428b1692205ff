#!/usr/bin/env python3
"""Builds the instrumented oxsx libraries and harness executables from /repo's working tree.

usage: build.py [--all | Pxx ...]

/repo/src is mirrored by content into /verif/build/src (an unchanged file keeps its time
stamp, so ninja rebuilds only what really changed, whatever the time stamps in /repo are).
Nothing under /repo is written.
"""
import fcntl, glob, os, re, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OXV_REPO", "/repo")
B = os.environ.get("OXV_BUILD", os.path.join(V, "build"))

NEEDS_ROOT = {
    "data/DataSetGenerator.cpp", "data/IO.cpp", "data/ROOTNtuple.cpp", "data/ROOTTree.cpp",
    "dist/BinnedEDGenerator.cpp", "dist/DistTools.cpp", "eventSystematic/EventConvolution.cpp",
    "function/Gaussian.cpp", "function/VaryingCDF.cpp", "optimise/MCMC.cpp",
    "optimise/MCMCSamples.cpp", "optimise/MetropolisSampler.cpp", "optimise/Minuit.cpp",
    "optimise/MinuitFCN.cpp", "rand/Rand.cpp",
}
SKIP = {"plot/ROOTMultiPlot.cpp"}  # drawing only: needs a real canvas

SAN = ("-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all "
       "-fno-sanitize=float-divide-by-zero -fno-omit-frame-pointer")
# Uninitialised stack variables get a recognisable value instead of a lucky zero.
CXXFLAGS = ("-std=c++17 -O1 -g1 -w -D_GLIBCXX_ASSERTIONS -DOXSX_VERIF "
            "-ftrivial-auto-var-init=pattern " + SAN)
H5INC = "/usr/include/hdf5/serial"
H5LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
LIBS = "-larmadillo -lgsl -lgslcblas -L%s -lhdf5_cpp -lhdf5 -lpthread" % H5LIB


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def mirror():
    """Copy sources and (flattened) headers whose content differs; drop what is gone."""
    src, want = os.path.join(REPO, "src"), {}
    cpps = []
    for d, _, files in os.walk(src):
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            if f.endswith((".h", ".hh", ".hpp")):
                want[os.path.join(B, "include", f)] = p
            elif f.endswith((".cpp", ".cc", ".cxx")):
                if rel in SKIP:
                    continue
                want[os.path.join(B, "src", rel)] = p
                cpps.append(rel)
    for dst, p in want.items():
        with open(p, "rb") as f:
            put(dst, f.read())
    for top in ("include", "src"):
        for d, _, files in os.walk(os.path.join(B, top)):
            for f in files:
                if os.path.join(d, f) not in want:
                    os.remove(os.path.join(d, f))
    return sorted(cpps)


ROOT_HEADER = re.compile(r'^\s*#\s*include\s*[<"]((T[A-Z]\w*|Math/\w+|Minuit2/\w+|Rtypes)\.h)[>"]', re.M)


def includes_root(rel):
    if rel in NEEDS_ROOT:
        return True
    with open(os.path.join(B, "src", rel), errors="replace") as f:
        return any(not os.path.exists(os.path.join(B, "include", m[0])) for m in ROOT_HEADER.findall(f.read()))


def gen(cpps):
    H = sorted(glob.glob(os.path.join(V, "harness", "P*.cpp")))
    o = ["builddir = %s" % B, "flags = " + CXXFLAGS,
         "inc = -I%s/include -isystem %s" % (B, H5INC),
         "rootinc = -isystem %s/shim" % V, "hinc = -I%s/harness" % V,
         "rule cxx", "  command = g++ $flags $inc $extra -MD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
         "rule ar", "  command = rm -f $out && ar rcs $out $in", "  description = AR $out",
         "rule link", "  command = g++ $flags $in $libs %s -o $out" % LIBS, "  description = LINK $out"]
    core, root = [], []
    for c in cpps:
        obj = "%s/obj/%s.o" % (B, c)
        r = includes_root(c)
        (root if r else core).append(obj)
        o.append("build %s: cxx %s/src/%s" % (obj, B, c))
        if r:
            o.append("  extra = $rootinc")
    o.append("build %s/libcore.a: ar %s" % (B, " ".join(core)))
    o.append("build %s/libroot.a: ar %s" % (B, " ".join(root)))
    o.append("build %s/obj/oxv_main.o: cxx %s/harness/oxv_main.cc" % (B, V))
    o.append("  extra = $hinc")
    names = []
    for h in H:
        n = os.path.basename(h)[:-4]
        pid = n.split("_")[0]
        text = open(h).read()
        useroot = "OXV_NEEDS_ROOT" in text
        names.append(pid)
        o.append("build %s/obj/%s.o: cxx %s" % (B, n, h))
        o.append("  extra = $hinc" + (" $rootinc" if useroot else ""))
        libs = ("%s/libroot.a " % B if useroot else "") + "%s/libcore.a" % B
        o.append("build %s/bin/%s: link %s/obj/%s.o %s/obj/oxv_main.o | %s" % (B, pid, B, n, B, libs))
        o.append("  libs = -Wl,--start-group %s -Wl,--end-group" % libs)
    put(os.path.join(B, "build.ninja"), ("\n".join(o) + "\n").encode())
    return names


def build(targets=None):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        names = gen(mirror())
        t = targets or names
        cmd = ["ninja", "-C", B, "-j", str(os.cpu_count() or 8)] + (["-k", "0"] if not targets else [])
        p = subprocess.run(cmd + ["%s/bin/%s" % (B, x) for x in t], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout


if __name__ == "__main__":
    rc, out = build([a for a in sys.argv[1:] if not a.startswith("-")])
    print(out[-6000:])
    sys.exit(rc)
