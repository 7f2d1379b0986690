"""Running compilers and compiled programs."""
import ctypes, os, resource, signal, subprocess
from lib.build import ENV

GCC_FLAGS = ["-w", "-O0", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin", "-ffp-contract=off", "-std=gnu2x"]
CLANG_FLAGS = ["-w", "-O0", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin", "-ffp-contract=off", "-std=gnu2x",
               "-fbracket-depth=2048"]
SAN_FLAGS = ["-fsanitize=undefined,address", "-fno-sanitize-recover=all"]


class Res:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "Res(rc=%r%s, out=%r, err=%r)" % (self.rc, " TIMEOUT" if self.timeout else "", self.out[-300:], self.err[-300:])


_libc = ctypes.CDLL(None, use_errno=True)


def _limits(mem, fsize):
    def f():
        os.setpgid(0, 0)
        _libc.prctl(1, 9, 0, 0, 0)  # PR_SET_PDEATHSIG: nothing is left running when a check is ended
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(argv, cwd=None, timeout=20, stdin=b"", mem=None, fsize=256 << 20, env=None):
    p = subprocess.Popen(argv, cwd=cwd, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env if env is not None else ENV, preexec_fn=_limits(mem, fsize))
    try:
        out, err = p.communicate(stdin if stdin else None, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return Res(p.returncode, out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape"), to)


def write(path, text):
    if isinstance(text, bytes):
        with open(path, "wb") as f:
            f.write(text)
    else:
        with open(path, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
            f.write(text)
    return path
