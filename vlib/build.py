"""Builds the code under test from /repo's working tree, in several instrumented variants.

Nothing is written under /repo.  Objects are cached under /verif/build by a hash of their
inputs (sources, headers, flags); a missing cache only costs time.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
QT = "/usr/include/x86_64-linux-gnu/qt5"
RCC = "/usr/lib/x86_64-linux-gnu/qt5/bin/rcc"
MOC = "/usr/lib/x86_64-linux-gnu/qt5/bin/moc"
JOBS = 8

BASE = ["-std=gnu++11", "-fopenmp", "-fPIC", "-D_REENTRANT", "-DQT_DISABLE_DEPRECATED_BEFORE=0",
        "-DHAVE_OPENMP", "-DHAVE_OPENCL", "-DHAVE_OPENCL2", "-DNBODY_EXPORT_DLL", "-DQT_NO_DEBUG",
        "-DQT_OPENGL_LIB", "-DQT_WIDGETS_LIB", "-DQT_GUI_LIB", "-DQT_CORE_LIB", "-w",
        "-I" + os.path.join(REPO, "nbody"), "-isystem", QT, "-isystem", QT + "/QtOpenGL",
        "-isystem", QT + "/QtWidgets", "-isystem", QT + "/QtGui", "-isystem", QT + "/QtCore"]
SAN = ["-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (compile flags, link flags)
    "plain": (["-O2"], ["-lgomp"]),
    "san": (["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SAN, SAN + ["-lgomp"]),
    # ThreadSanitizer does not understand libgomp's futex barriers: the program is linked with the
    # OpenMP runtime of harness/gomp_shim.cpp (pthreads only) instead.
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # the same runtime without TSan: adversarial schedules at full speed
    "shim": (["-O2", "-g1"], []),
    # the library for single and quadruple precision coordinates (the latter without OpenCL, as in pri/nbody.pri)
    "san1": (["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DNB_COORD_PRECISION=1"] + SAN, SAN + ["-lgomp", "-lquadmath"]),
    "san4": (["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DNB_COORD_PRECISION=4", "-UHAVE_OPENCL", "-UHAVE_OPENCL2"] + SAN, SAN + ["-lgomp", "-lquadmath"]),
}
LIBS = ["-lOpenCL", "-lQt5OpenGL", "-lQt5Widgets", "-lQt5Gui", "-lQt5Core", "-lGL", "-lpthread"]
LIBS = [l for l in LIBS if l not in ("-lQt5OpenGL", "-lQt5Widgets")]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


def headers_hash(extra_dirs=()):
    hs = []
    for d in [os.path.join(REPO, "nbody")] + list(extra_dirs):
        for h in sorted(glob.glob(d + "/*.h")):
            hs += [h, _read(h)]
    return _hash(*hs)


def lib_sources():
    return sorted(s for s in glob.glob(os.path.join(REPO, "nbody", "*.cpp")) if "cuda" not in os.path.basename(s))


def _pch(flags, tag):
    d = os.path.join(OUT, "pch", tag)
    os.makedirs(d, exist_ok=True)
    hdr = os.path.join(d, "vpch.h")
    gch = hdr + ".gch"
    if not os.path.exists(gch):
        with open(hdr + ".tmp%d" % os.getpid(), "w") as f:
            f.write("#include <QtOpenGL/QtOpenGL>\n#include <QDebug>\n#include <QFile>\n#include <QTextStream>\n"
                    "#include <vector>\n#include <map>\n#include <cmath>\n#include <omp.h>\n")
        os.replace(hdr + ".tmp%d" % os.getpid(), hdr)
        tmp = gch + ".tmp%d" % os.getpid()
        _run(["g++", "-x", "c++-header"] + flags + [hdr, "-o", tmp], "precompiled header")
        os.replace(tmp, gch)
    return hdr


def compile_objs(jobs):
    """jobs: list of (source, flags, hash-extra) -> list of object paths."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)

    def one(j):
        src, flags, extra = j
        key = _hash(src, _read(src), " ".join(flags), extra)
        obj = os.path.join(OUT, "obj", os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d" % os.getpid()
            _run(["g++", "-c"] + flags + [src, "-o", tmp], "compile " + src)
            os.replace(tmp, obj)
        return obj
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def qrc_source():
    qrc = os.path.join(REPO, "nbody", "opencl.qrc")
    if not os.path.exists(qrc):
        return None
    deps = [_read(f) for f in sorted(glob.glob(os.path.join(REPO, "nbody", "*.cl")) +
                                     glob.glob(os.path.join(REPO, "nbody", "*_priv.h")))]
    key = _hash(_read(qrc), *deps)
    out = os.path.join(OUT, "qrc_opencl_%s.cpp" % key)
    if not os.path.exists(out):
        os.makedirs(OUT, exist_ok=True)
        tmp = out + ".tmp%d.cpp" % os.getpid()
        _run([RCC, "-name", "opencl", qrc, "-o", tmp], "rcc")
        os.replace(tmp, out)
    return out


def variant_flags(variant):
    return BASE + VARIANTS[variant][0]


def lib_jobs(variant):
    flags = variant_flags(variant)
    pch = _pch(flags, _hash(variant, " ".join(flags)))
    hh = headers_hash()
    opencl = "-UHAVE_OPENCL" not in flags
    jobs = [(s, flags + ["-include", pch], hh) for s in lib_sources() if opencl or "opencl" not in os.path.basename(s)]
    q = qrc_source() if opencl else None
    if q:
        jobs.append((q, ["-O1", "-fPIC", "-isystem", QT, "-isystem", QT + "/QtCore"], ""))
    return jobs


def program(name, variant, sources, extra_flags=(), extra_libs=(), link_shim=False, with_lib=True, include_dirs=()):
    """Link `sources` (harness files or files of /repo) with the library; returns the executable."""
    flags = variant_flags(variant)
    pch = _pch(flags, _hash(variant, " ".join(flags)))
    hdirs = [os.path.join(VERIF, "harness")] + list(include_dirs)
    hh = headers_hash(hdirs)
    hflags = flags + ["-I" + d for d in hdirs] + list(extra_flags) + ["-include", pch]
    jobs = [(s, hflags, hh) for s in sources]
    if with_lib:
        jobs += lib_jobs(variant)
    libs = list(VARIANTS[variant][1])
    objs = compile_objs(jobs)
    if link_shim:
        shim_flags = ["-std=gnu++17", "-fPIC", "-g1", "-O1" if variant == "tsan" else "-O2"]
        if variant == "tsan":
            shim_flags.append("-fsanitize=thread")
        objs += compile_objs([(os.path.join(VERIF, "harness", "gomp_shim.cpp"), shim_flags, "")])
    key = _hash(name, variant, *(objs + libs + list(extra_libs)))
    exe = os.path.join(OUT, "bin", "%s-%s-%s" % (name, variant, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        _run(["g++", "-o", tmp] + objs + libs + list(extra_libs) + LIBS, "link " + name)
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    import time
    for v in sys.argv[1:]:
        t = time.time()
        compile_objs(lib_jobs(v))
        print(v, "%.1f s" % (time.time() - t))
