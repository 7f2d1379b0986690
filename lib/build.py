"""Builds slimcc variants from the current working tree of the repository, in a scratch directory."""
import os, shutil, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
from lib.engine import REPO

ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
       "HOME": "/tmp"}
SRCS = "alloc codegen hashmap main parse platform preprocess strings tokenize type unicode".split()


class BuildError(Exception):
    is_stage2 = False
    partial = None


def sources():
    """The project's own list of sources, from its Makefile."""
    for line in open(os.path.join(REPO, "Makefile")):
        if line.startswith("SRCS="):
            return [s[:-2] for s in line[5:].split()]
    return SRCS


def _copy(dst):
    os.makedirs(dst)
    for f in glob.glob(os.path.join(REPO, "*.[ch]")):
        if os.path.basename(f) == "platform.c":
            continue
        shutil.copy(f, dst)
    shutil.copytree(os.path.join(REPO, "include"), os.path.join(dst, "include"))
    shutil.copytree(os.path.join(REPO, "platform"), os.path.join(dst, "platform"))
    pc = os.path.join(REPO, "platform.c")
    src = os.path.realpath(pc) if os.path.exists(pc) else os.path.join(REPO, "platform/linux-glibc-generic.c")
    shutil.copy(src, os.path.join(dst, "platform.c"))


def _build(dst, cc, flags, ldflags=()):
    def one(s):
        return subprocess.run([*cc, *flags, "-c", "-o", s + ".o", s + ".c"], cwd=dst, env=ENV,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    srcs = sources()
    with ThreadPoolExecutor(8) as ex:
        for s, r in zip(srcs, ex.map(one, srcs)):
            if r.returncode:
                raise BuildError("compiling %s.c: %s" % (s, r.stdout.decode("utf-8", "replace")[-2000:]))
    r = subprocess.run([*cc, "-o", "slimcc", *[s + ".o" for s in srcs], *ldflags], cwd=dst, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("linking: " + r.stdout.decode("utf-8", "replace")[-2000:])
    return os.path.join(dst, "slimcc")


VARIANTS = {
    # as the Makefile builds it
    "default": (["gcc"], ["-g0"], []),
    "asan": (["gcc"], ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "ubsan": (["gcc"], ["-g", "-O1", "-fsanitize=undefined"], ["-fsanitize=undefined"]),
    "clang": (["clang"], ["-O2", "-w"], []),
    "gccO2": (["gcc"], ["-O2", "-w"], []),
    # every input takes the memory-reclaiming path: getrusage reports a huge resident set
    "reclaim": (["gcc"], ["-g0"], ["reclaim_stub.o"]),
    "cov": (["gcc"], ["-O0", "--coverage"], ["--coverage"]),
}


def get(need, base):
    res = {"base": base}
    # gcc invoked by slimcc is never needed; as/ld are found through PATH
    covdir = os.environ.get("VERIF_COV")       # development only: measure what the generators reach
    for v in need:
        if v == "stage2":
            continue
        if covdir and v == "default":
            d = os.path.join(covdir, "src")
            if not os.path.exists(d):
                _copy(d)
                cc, fl, ld = VARIANTS["cov"]
                _build(d, cc, fl, ld)
            res[v] = os.path.join(d, "slimcc")
            continue
        d = os.path.join(base, "slimcc-" + v)
        _copy(d)
        cc, fl, ld = VARIANTS[v]
        if v == "reclaim":
            with open(os.path.join(d, "reclaim_stub.c"), "w") as f:
                f.write("#include <sys/resource.h>\n#include <string.h>\n"
                        "int getrusage(__rusage_who_t who, struct rusage *r) { memset(r, 0, sizeof *r); r->ru_maxrss = 1L << 40; return 0; }\n")
            r = subprocess.run(["gcc", "-D_GNU_SOURCE", "-c", "reclaim_stub.c"], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("reclaim stub: " + r.stdout.decode("utf-8", "replace"))
        res[v] = _build(d, cc, fl, ld)
    if "stage2" in need:
        d = os.path.join(base, "slimcc-stage2")
        _copy(d)
        try:
            res["stage2"] = _build(d, [res["default"]], [])
        except BuildError as e:
            e.is_stage2 = True
            e.partial = res
            raise
    return res
