"""Builds libfptu (from /repo's current working tree) and the harness drivers,
out of tree, in several instrumentation flavours.  Objects are cached by content
hash under /verif/build (git-ignored), so nothing stale can be picked up."""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=gnu++20", "-D_HAS_EXCEPTIONS=1", "-D__STDC_CONSTANT_MACROS=1",
          "-D__STDC_FORMAT_MACROS=1", "-D__STDC_LIMIT_MACROS=1", "-fexceptions",
          "-fno-common", "-g1", "-w", "-fPIC"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize=null,alignment,vptr",
         "-fno-sanitize-recover=all"]
FLAVORS = {
    # what the project ships: -O2 -DNDEBUG -ffast-math -fno-finite-math-only
    "rel": dict(cxx="g++", flags=["-O2", "-DNDEBUG"], lib=["-ffast-math", "-fno-finite-math-only"], link=[]),
    # memory errors + undefined behaviour
    "asan": dict(cxx="g++",
                 flags=["-O1", "-DNDEBUG", "-fno-omit-frame-pointer",
                        "-fsanitize=address"] + UBSAN,
                 lib=["-ffast-math", "-fno-finite-math-only"], link=["-fsanitize=address,undefined"]),
    # same, with the library's own assertions and deep self-checks armed
    "dbg": dict(cxx="g++",
                flags=["-O1", "-UNDEBUG", "-fno-omit-frame-pointer",
                       "-fsanitize=address"] + UBSAN,
                lib=["-ffast-math", "-fno-finite-math-only"], link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++",
                 flags=["-O1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=thread",
                        # the ifunc resolver runs before the TSan runtime is up
                        "-DERTHINK_USE_ELF_IFUNC=0"],
                 lib=["-ffast-math", "-fno-finite-math-only"], link=["-fsanitize=thread"]),
    # another compiler, and the portable code for compilers without 128-bit integers
    "alt": dict(cxx="clang++", flags=["-O2", "-DNDEBUG", "-DVERIF_PORTABLE"], lib=["-ffast-math", "-fno-finite-math-only"], link=[]),
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _walk(top):
    for d, _, files in sorted(os.walk(top)):
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".cxx", ".cc", ".c", ".in", ".inc", ".txt")):
                yield os.path.join(d, f)


def tree_hash(*tops):
    h = hashlib.sha256()
    for t in tops:
        for f in _walk(t):
            h.update(f.encode())
            with open(f, "rb") as fd:
                h.update(fd.read())
    return h.hexdigest()


HAVE = {"HAVE_MEMMEM", "HAVE_MEMRCHR", "HAVE_UNISTD_H", "HAVE_SYS_UIO_H", "HAVE_SYS_STAT_H",
        "HAVE_SYSTIME_H_TIMEVAL_TV_USEC", "HAVE_TIMESPEC_TV_NSEC", "HAVE_nanf", "HAVE_nan",
        "HAVE_IEEE754_H"}
HAVE01 = {"FPTU_ENABLE_TESTS"}


def gen_config(outdir):
    """Expands config.h.in the way cmake does in this sandbox."""
    src = open(os.path.join(REPO, "fast_positive/tuples/config.h.in")).read()
    out = []
    for line in src.splitlines():
        m = re.match(r"\s*#cmakedefine01\s+(\w+)", line)
        if m:
            out.append(f"#define {m.group(1)} {1 if m.group(1) in HAVE01 else 0}")
            continue
        m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", line)
        if m:
            out.append(f"#define {m.group(1)}{m.group(2)}" if m.group(1) in HAVE
                       else f"/* #undef {m.group(1)} */")
            continue
        out.append(line)
    os.makedirs(os.path.join(outdir, "fast_positive/tuples"), exist_ok=True)
    dst = os.path.join(outdir, "fast_positive/tuples/config.h")
    text = "\n".join(out) + "\n"
    if not os.path.exists(dst) or open(dst).read() != text:
        tmp = f"{dst}.{os.getpid()}"
        open(tmp, "w").write(text)
        os.replace(tmp, dst)
    return outdir


def lib_sources():
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    found = []
    for tok in re.findall(r"[\w./\-]+\.cxx\b", text):
        p = os.path.normpath(os.path.join(REPO, "src", tok))
        if os.path.exists(p) and p not in found:
            found.append(p)
    return found


def _run(cmd, out):
    tmp = f"{out}.{os.getpid()}.tmp"
    cmd = [tmp if c == "@OUT@" else c for c in cmd]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + p.stdout[-6000:])
    os.replace(tmp, out)


def build(flavor, drivers, with_lib=True, extra=()):
    """-> {driver: path of the executable}.  drivers: names of /verif/harness/<name>.cc"""
    fl = FLAVORS[flavor]
    with_lib = with_lib and drivers != ["erthink"]  # header-only code
    cfg = gen_config(os.path.join(BUILD, "cfg"))
    inc = ["-I", REPO, "-I", cfg]
    rhash = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "fast_positive"))
    base = [fl["cxx"]] + COMMON + fl["flags"] + list(extra)
    jobs, libobjs = [], []
    if with_lib:
        od = os.path.join(BUILD, flavor, "lib")
        os.makedirs(od, exist_ok=True)
        for s in lib_sources():
            fl_s = list(fl["lib"]) + ["-fvisibility=hidden"]
            if s.endswith("scan_AVX.cxx"):
                fl_s.append("-mavx")
            if s.endswith("scan_AVX2.cxx"):
                fl_s.append("-mavx2")
            cmd = base + fl_s + inc
            key = _sha(rhash, s, " ".join(cmd))
            o = os.path.join(od, f"{os.path.basename(s)}.{key}.o")
            libobjs.append(o)
            jobs.append((cmd + ["-c", s, "-o", "@OUT@"], o))
    hd = os.path.join(BUILD, flavor, "drv")
    os.makedirs(hd, exist_ok=True)
    hhash = tree_hash(HARNESS)
    drv = {}
    for d in drivers:
        s = os.path.join(HARNESS, d + ".cc")
        cmd = base + inc + ["-I", HARNESS]
        key = _sha(rhash, hhash, s, " ".join(cmd))
        o = os.path.join(hd, f"{d}.{key}.o")
        drv[d] = o
        jobs.append((cmd + ["-c", s, "-o", "@OUT@"], o))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    # big translation units (drivers) first
    todo.sort(key=lambda j: 0 if "/drv/" in j[1] else 1)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda j: _run(*j), todo))
    exes = {}
    for d, o in drv.items():
        key = _sha(o, *libobjs)
        exe = os.path.join(BUILD, flavor, f"{d}.{key}")
        if not os.path.exists(exe):
            _run([fl["cxx"], "-o", "@OUT@", o] + libobjs + fl["link"] + ["-lpthread", "-lm", "-lrt"], exe)
        exes[d] = exe
    return exes


if __name__ == "__main__":
    for d, e in build(sys.argv[1], sys.argv[2:]).items():
        print(d, e)
