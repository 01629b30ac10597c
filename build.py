#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/build, with a cache keyed on content.

    build.py            build, print the path of the simulator
"""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DELYNOI_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

INC = ["-I%s/delynoi/include" % REPO, "-I%s/lib/utilities/include" % REPO]
TSAN = ["-U_FORTIFY_SOURCE", "-fsanitize=thread", "--param=tsan-distinguish-volatile=0"]
LIBCXX = ["g++", "-w", "-std=gnu++11", "-O1", "-g", "-D_GLIBCXX_ASSERTIONS"] + TSAN + INC
LIBC = ["gcc", "-w", "-O1", "-g", "-DTRILIBRARY", "-DANSI_DECLARATORS"] + TSAN + INC
WRAP = ["g++", "-w", "-std=gnu++14", "-O1", "-g", "-D_GLIBCXX_ASSERTIONS"] + TSAN + INC
SIM = ["g++", "-Wall", "-std=gnu++17", "-O1", "-g"]
REDEF = ["malloc", "free", "calloc", "realloc", "exit", "memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strcmp",
         "strncmp", "strcpy", "strncpy", "strcat", "strchr", "strstr", "strtok", "strtod", "atof", "vsnprintf", "snprintf",
         "vsprintf", "sprintf"]
RNGS = ["_ZN13Random_Double3rngE", "_ZN14Random_Integer3rngE", "_ZN17RandomDoubleNoise3rngE",
        "_ZN18RandomIntegerNoise3rngE"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[:4000]))
    return p.stdout


def sources():
    found = []
    for base in ("delynoi", "lib/utilities"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if not d.startswith((".", "_build", "CMakeFiles")))
            for f in sorted(files):
                if not f.endswith((".o", ".a", ".so")):
                    found.append(os.path.join(root, f))
    return found


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    srcs = sources()
    # whatever may be included: all that is no source file, and the source files that some file includes
    texts = {s: read(s) for s in srcs}
    included = {os.path.basename(i.decode(errors="replace")) for t in texts.values() for i in re.findall(rb'#\s*include\s*[<"]([^>"]+)', t)}
    headers = [s for s in srcs if not s.endswith((".cpp", ".c")) or os.path.basename(s) in included]
    hdr = sha(*[x for h in headers for x in (os.path.relpath(h, REPO), read(h))])
    lib = [s for s in srcs if s.endswith(".cpp") and ("/src/" in s)]
    tri = [s for s in srcs if s.endswith(".c")]
    simdir = os.path.join(VERIF, "sim")
    simh = sha(*[read(h) for h in sorted(glob.glob(simdir + "/*.h"))])
    jobs = []  # (source, command, object, library?)
    for s in lib:
        jobs.append((s, LIBCXX, sha(hdr, read(s), LIBCXX, REDEF, s), True))
    for s in tri:
        jobs.append((s, LIBC, sha(hdr, read(s), LIBC, REDEF, s), True))
    jobs.append((simdir + "/calls.cpp", WRAP, sha(hdr, simh, read(simdir + "/calls.cpp"), WRAP), False))
    for n in ("exec.cpp", "plan.cpp", "gen.cpp", "sim.cpp"):
        jobs.append((simdir + "/" + n, SIM, sha(simh, read(simdir + "/" + n), SIM), False))
    whole = sha(*[j[2] for j in jobs], read(simdir + "/rt.cpp"), read(os.path.abspath(__file__)), REPO)
    out = os.path.join(BUILD, "sim-" + whole)
    if os.path.exists(out):
        return out
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)

    def one(j):
        src, cmd, key, islib = j
        obj = os.path.join(objdir, key + ".o")
        if os.path.exists(obj):
            return obj
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=objdir)
        os.close(fd)
        try:
            run(cmd + ["-c", src, "-o", tmp])
            if islib:
                run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (r, r) for r in REDEF] + [tmp])
            os.rename(tmp, obj)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
        return obj

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    nlib = len(lib) + len(tri)
    libobjs = objs[:nlib]
    # The entropy seam for the library's process-wide generators exists only while they look like they do today.
    have = set()
    for line in run(["readelf", "-sW"] + libobjs).splitlines():
        f = line.split()
        if len(f) == 8 and f[7] in RNGS and f[2] == "5000" and f[3] == "OBJECT" and f[4] != "LOCAL" and f[6] != "UND":
            have.add(f[7])
    rtflags = SIM + ["-DRNG_SEAM%d" % i for i, r in enumerate(RNGS) if r in have]
    rtobj = one((simdir + "/rt.cpp", rtflags, sha(simh, read(simdir + "/rt.cpp"), rtflags), False))
    fd, tmp = tempfile.mkstemp(prefix="link", dir=BUILD)
    os.close(fd)
    run(["g++", "-no-pie"] + libobjs + objs[nlib:] + [rtobj, "-o", tmp, "-lpthread", "-ldl"])
    os.chmod(tmp, 0o755)
    os.rename(tmp, out)
    olds = sorted(glob.glob(BUILD + "/sim-*"), key=os.path.getmtime)
    for o in olds[:-6]:
        os.unlink(o)
    objs_all = sorted(glob.glob(objdir + "/*.o"), key=os.path.getmtime)
    keep = set(objs + [rtobj])
    if len(objs_all) > 600:
        for o in objs_all[:-400]:
            if o not in keep:
                os.unlink(o)
    return out


if __name__ == "__main__":
    try:
        print(build(True))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
