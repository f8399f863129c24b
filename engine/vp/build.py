"""Builds the instrumentation plugin, the normaliser, /repo's library
(instrumented and native) and harnesses.  Everything is regenerated from the
current working tree; objects are cached by content hash under VP_CACHE."""
import threading, hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.dirname(HERE)
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
JOBS = os.cpu_count() or 8

BASE = ["-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
        "-DEIGEN_DONT_VECTORIZE", "-D_GLIBCXX_ASSERTIONS", "-std=c++17", "-w", "-DMoorDyn_EXPORTS",
        "-D_FILE_OFFSET_BITS=64", "-fPIC", "-fno-omit-frame-pointer",
        "-DMOORDYN_MAJOR_VERSION=2", "-DMOORDYN_MINOR_VERSION=3", "-DMOORDYN_PATCH_VERSION=0"]


class BuildError(Exception):
    pass


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-4000:]))
    return r.stdout


def cached(key, name, make):
    d = os.path.join(CACHE, key)
    out = os.path.join(d, name)
    if os.path.exists(out):
        os.utime(d)
        return out
    os.makedirs(d, exist_ok=True)
    tmp = out + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
    make(tmp)
    os.replace(tmp, out)
    return out


def plugin():
    src = os.path.join(ENGINE, "pass", "VPPass.cpp")
    fl = run(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"]).split()
    fl = [x for x in fl if not x.startswith("-std=")]
    cmd = ["clang++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti"] + fl + [src]
    return cached(h("plugin", rd(src), " ".join(cmd)), "libvp.so", lambda o: run(cmd + ["-o", o]))


def norm():
    src = os.path.join(ENGINE, "norm", "vpnorm.cpp")
    cmd = ["g++", "-O2", "-std=c++17", "-w", src]
    return cached(h("norm", rd(src), " ".join(cmd)), "vpnorm",
                  lambda o: run(cmd + ["-o", o, "-lgmpxx", "-lgmp"]))


def rt(native):
    n = "vp_native.cpp" if native else "vp_rt.cpp"
    src = os.path.join(ENGINE, "rt", n)
    key = h("rt", n, rd(src), rd(os.path.join(ENGINE, "rt", "vp_common.h")), rd(os.path.join(ENGINE, "rt", "vp.h")))
    return cached(key, n + ".o", lambda o: run(["clang++", "-O2", "-std=c++17", "-w", "-fPIC", "-c", src, "-o", o]))


def sources():
    """the library's translation units, as listed by its own build file"""
    import re
    t = open(os.path.join(REPO, "source", "CMakeLists.txt")).read()
    m = re.search(r"set\(MOORDYN_SRCS(.*?)\)", t, re.S)
    fs = [x for x in m.group(1).split() if x.endswith((".cpp", ".c", ".cc"))]
    return [os.path.join(REPO, "source", f) for f in fs]


def header_hash():
    hs = []
    for root, dirs, files in os.walk(os.path.join(REPO, "source")):
        dirs[:] = sorted(d for d in dirs if d != "Eigen")
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".in", ".hh", ".inl", ".txt")):
                p = os.path.join(root, f)
                hs.append(p)
                hs.append(rd(p))
    return h(*hs)


def incdir():
    """a Config.h (double precision, no VTK), as CMake would generate it"""
    d = os.path.join(CACHE, h("cfg", 3))
    out = os.path.join(d, "Config.h")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        txt = ["#ifndef __MOORDYN_PLATFORM_H__", "#define __MOORDYN_PLATFORM_H__", "#endif"]
        tmp = out + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write("\n".join(txt) + "\n")
        os.replace(tmp, out)
    return d


def flags():
    return BASE + ["-I", incdir(), "-I", os.path.join(REPO, "source")]


def compile_one(src, native, plug, hh, extra=()):
    fl = flags() + list(extra)
    isc = src.endswith(".c")
    cc = "clang" if isc else "clang++"
    if isc:
        fl = [x for x in fl if not x.startswith("-std=")]
    cmd = [cc] + fl + ([] if native else ["-fpass-plugin=" + plug]) + ["-c", src]
    pk = "" if native else h(rd(plug))
    return cached(h("obj", src, rd(src), hh, native, " ".join(fl), pk), os.path.basename(src) + ".o",
                  lambda o: run(cmd + ["-o", o]))


def harness(name, native=False, only=None, extra=()):
    """build harness /verif/harness/<name>.cpp -> path of the executable"""
    hsrc = os.path.join(VERIF, "harness", name + ".cpp")
    with ThreadPoolExecutor(JOBS) as ex:
        fn = ex.submit(norm)
        fr = ex.submit(rt, native)
        plug = None if native else plugin()
        hh = header_hash()
        ss = sources()
        if only is not None:
            ss = [s for s in ss if os.path.basename(s) in only]
        # biggest first
        ss = sorted(ss, key=lambda s: -os.path.getsize(s) - (10**6 if s.endswith("Time.cpp") else 0))
        hx = h(*[rd(x) for x in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))])
        ho = ex.submit(compile_one, hsrc, native, plug, h(hh, hx),
                       ["-fno-access-control", "-I", os.path.join(ENGINE, "rt"), "-I", os.path.join(VERIF, "harness")] + list(extra))
        ov = None
        if not native:
            ov = ex.submit(compile_one, os.path.join(ENGINE, "rt", "vp_ovr.cpp"), native, plug, "")
        objs = list(ex.map(lambda s: compile_one(s, native, plug, hh), ss))
        ho = ho.result()
        objs.append(ho)
        if ov:
            objs.append(ov.result())
        objs.append(fr.result())
        fn.result()
    key = h("exe", *objs)
    return cached(key, name + (".native" if native else ".sym"),
                  lambda o: run(["clang++"] + objs + ["-o", o, "-lm", "-lpthread"]))
