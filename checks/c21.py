"""C21: the driver. Random command lines over inputs of all kinds, with and without an injected fault, against a model of what has to be run, written and returned."""
import os, re, shutil, stat
from lib import cc
from lib.engine import Check, Failure, Src

STUB = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
/* stands for as and ld: notes its arguments, then does as told or runs the real tool */
int main(int argc, char **argv) {
  char *name = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  char *log = getenv("STUB_LOG"), *fault = getenv("STUB_FAULT"), buf[65536];
  int n = 0, count = 0;
  if (log) {
    int fd = open(log, O_RDWR | O_CREAT | O_APPEND, 0644);
    n = snprintf(buf, sizeof buf, "%s", name);
    for (int i = 1; i < argc && n < 60000; i++)
      n += snprintf(buf + n, sizeof buf - n, "\x1f%s", argv[i]);
    buf[n++] = '\n';
    if (write(fd, buf, n) != n)
      return 9;
    FILE *f = fopen(log, "r");
    while (fgets(buf, sizeof buf, f))
      if (!strncmp(buf, name, strlen(name)))
        count++;
  }
  if (strchr(name, '.'))
    *strchr(name, '.') = 0;
  char tool[64], want[64], what[64];
  int at;
  if (fault && sscanf(fault, "%63[^:]:%d:%63s", want, &at, what) == 3 && !strcmp(want, name) && at == count) {
    char *out = NULL;
    for (int i = 1; i + 1 < argc; i++)
      if (!strcmp(argv[i], "-o"))
        out = argv[i + 1];
    if (!strcmp(what, "partial") && out) {
      FILE *f = fopen(out, "w");
      if (f) { fputs("\177ELF", f); fclose(f); }
      return 3;
    }
    if (!strcmp(what, "kill")) raise(SIGKILL);
    if (!strcmp(what, "segv")) { signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); }
    if (!strcmp(what, "255")) return 255;
    return 1;
  }
  snprintf(tool, sizeof tool, "/usr/bin/%s", name);
  execv(tool, argv);
  return 127;
}
'''

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int nth(const char *what) {
  static int n[2];
  char *f = getenv("SHIM_FAULT");
  int i = !strcmp(what, "fork");
  n[i]++;
  return f && !strncmp(f, what, strlen(what)) && atoi(f + strlen(what)) == n[i];
}
static void note(const char *p) {
  char *log = getenv("SHIM_LOG"), b[600];
  int fd = log ? open(log, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
  if (fd >= 0) { int k = snprintf(b, sizeof b, "%s\n", p); if (write(fd, b, k)) {} close(fd); }
}
int mkstemp(char *t) {
  static int (*real)(char *);
  if (!real) real = dlsym(RTLD_NEXT, "mkstemp");
  if (nth("mkstemp")) { errno = EMFILE; return -1; }
  int r = real(t);
  if (r >= 0) note(t);
  return r;
}
int mkstemps(char *t, int k) {
  static int (*real)(char *, int);
  if (!real) real = dlsym(RTLD_NEXT, "mkstemps");
  if (nth("mkstemp")) { errno = EMFILE; return -1; }
  int r = real(t, k);
  if (r >= 0) note(t);
  return r;
}
int fork(void) {
  static int (*real)(void);
  if (!real) real = dlsym(RTLD_NEXT, "fork");
  if (nth("fork")) { errno = EAGAIN; return -1; }
  return real();
}
'''

MAC = ["A", "B", "C"]

# what the options make visible to the preprocessor
PROBE = """#ifdef __PIC__
 + 1000 * __PIC__ * (__pic__ == __PIC__)
#endif
#ifdef __PIE__
 + 3000 * __PIE__ * (__pie__ == __PIE__)
#endif
#ifdef _REENTRANT
 + 10000
#endif
#ifdef __STRICT_ANSI__
 + 20000
#endif
#if !__has_include(<stddef.h>)
 + 40000
#endif
#ifdef __STDC_DEFER_TS25755__
 + 80000
#endif
#ifdef unix
 + 160000
#endif
#ifdef __x86_64__
 + 320000
#endif
"""
STDV = {"c99": (2, "199901"), "c11": (3, "201112"), "c17": (4, "201710"), "c18": (4, "201710"), "c23": (5, "202311")}


def mkquote(s):
    return s


class Gen:
    def __init__(self, s):
        self.s = s
        self.files, self.cls = {}, set()
        self.val = {}

    def header(self, j):
        """a header chain for unit j: [(name, where)], defined constants sum up to the value"""
        s = self.s
        out, tot = [], 0
        prev = None
        for k in range(s.weighted([(30, 0), (40, 1), (20, 2), (10, 3)])):
            name = s.choice(["h%d_%d.h", "in/h%d_%d.h", "h %d_%d.h", "h$%d_%d.h", "in/h#%d_%d.h", "sy/s%d_%d.h", "inc2/g%d_%d.h"]) % (j, k)
            if name.startswith("in/") or "/" not in name:
                name = name.replace(" ", " ")
            v = s.range(1, 50)
            tot += v
            how = {"sy": "<%s>", "in": "\"%s\"", "inc2": s.choice(["<%s>", "\"%s\""]), "": "\"%s\""}[os.path.dirname(name)] % (name[3:] if name.startswith("sy/") else name[5:] if name.startswith("inc2/") else name)
            out.append((name, how, "#define HV_%d_%d %d\n" % (j, k, v), v))
        return out, tot

    def unit(self, j, kinds, main=False, used=()):
        s = self.s
        kind = s.choice(kinds)
        base = s.choice(["u%d", "u%d", "u%d.x", "d/u%d", "u %d", "U$%d"]) % j
        v = s.range(1, 200)
        u = {"j": j, "kind": kind, "v": v, "deps": [], "sysdeps": [], "out": False}
        if kind in ("c", "x", "stdin", "S", "h"):
            hs, tot = self.header(j) if kind != "stdin" else ([], 0)
            nest = len(hs) == 2 and s.chance(50) and hs[0][0].startswith("sy/") == hs[1][0].startswith("sy/") and False
            inc = "".join("#include %s\n" % how for name, how, t, hv in hs)
            for name, how, t, hv in hs:
                self.files[name] = t
                (u["sysdeps"] if name.startswith("sy/") else u["deps"]).append(name)
            u["hsum"] = tot
            if kind == "S":
                t = inc + "#ifdef A\n#define AV 1\n#else\n#define AV 0\n#endif\n# it's a comment, \"not a literal\n#define LD$x movl\n#define R(x) %%e##x\n.globl val_%d\n.type val_%d, @function\n.text\nval_%d: movl $AV+%d%s, R(ax) # isn't one either\n/* nor ' this */ ret // no\n.section .note.GNU-stack,\"\",@progbits\n" % (j, j, j, v, "".join("+HV_%d_%d" % (j, k) for k in range(len(hs))))
            else:
                if j == 0 and not self.noheaders and s.chance(15):
                    inc = "#include <stddef.h>\n" + inc
                    u["out"] = True
                emb = ""
                if kind != "stdin" and s.chance(20):
                    e = s.choice(["e%d.bin", "e %d", "in/e%d.h"]) % j
                    ev = s.range(1, 99)
                    self.files[e] = chr(ev)
                    u["deps"].append(e)
                    u["hsum"] += ev
                    emb = "static const unsigned char emb_%d[] = {\n#embed %s\n};\n" % (j, "\"%s\"" % os.path.relpath(e, os.path.dirname(base)) if True else "")
                    inc += emb
                    emb = " + emb_%d[0]" % j
                if self.kw:
                    inc += self.kw % j
                    u["hsum"] += self.kwv
                    emb += " + kw_%d()" % j
                t = inc + "int val_%d(void) { return %d%s%s\n" % (j, v, "".join(" + HV_%d_%d" % (j, k) for k in range(len(hs))), emb)
                for i, m in enumerate(MAC):
                    t += "#ifdef %s\n + %s * %d\n#endif\n" % (m, m, i + 2)
                t += "#ifdef INCV\n + INCV\n#endif\n"
                if self.probe:
                    t += PROBE
                t += "; }\n"
            u["text"] = t
            u["name"] = {"c": base + ".c", "h": base + ".h", "x": base + s.choice([".txt", ".h", ".cc", ".o", ""]), "stdin": "-", "S": base + ".S"}[kind]
            if kind == "x" and u["name"].startswith("-"):
                u["name"] = "./" + u["name"]
        elif kind == "s":
            u["name"] = base + ".s"
            u["text"] = ".globl val_%d\n.type val_%d, @function\n.text\nval_%d: movl $%d, %%eax\nret\n.section .note.GNU-stack,\"\",@progbits\n" % (j, j, j, v)
        else:
            u["name"] = {"o": base + ".o", "a": base + ".a", "l": "lib/libq%d.a" % j, "so": s.choice(["libs%d.so", "libs%d.so", "libs%d.so.1", "libs%d.so.10.2.3", "l/libs%d.so.4"]) % j, "lo": base + ".lo"}[kind]
            u["text"] = None
        if u["name"] != "-" and u["text"] is not None:
            self.files[u["name"]] = u["text"]
        return u

    def options(self):
        """options that the units themselves can see"""
        s = self.s
        self.probe, self.kw, self.kwv, self.pflags, self.stds, self.pv = s.chance(55), None, 0, [], [], 160000 + 320000
        self.gstd, self.pie = "-std=gnu17", "default"
        self.nostdinc = self.noheaders = False
        if not self.probe:
            return
        std = None
        for _ in range(s.weighted([(40, 0), (45, 1), (15, 2)])):
            std = s.choice(["c89", "c90", "c99", "c11", "c17", "c18", "c23", "c99", "c11", "c23", "gnu11", "gnu23", "ansi"])
            self.stds.append(["-ansi"] if std == "ansi" else s.choice([["-std=" + std], ["-std=" + std], ["--std=" + std], ["--std", std]]) if not std.startswith("gnu") else ["-std=" + std])
        std = ([x[-1].split("=")[-1] for x in self.stds if "gnu" not in x[-1]] or [None])[-1]
        if ["-ansi"] in self.stds:
            self.pv += 20000
        self.gstd = "-std=gnu17" if std is None else "-std=c90" if std in ("c89", "c90", "-ansi") else "-std=" + {"c23": "c2x"}.get(std, std)
        # what the standard chosen makes of words and of __STDC_VERSION__
        kw = []
        if std in STDV or std is None:
            kw.append("#if __STDC_VERSION__ == %sL\n k += %d;\n#endif\n" % (STDV[std or "c17"][1], STDV[std or "c17"][0]))
            self.kwv += STDV[std or "c17"][0]
        if std == "c23":
            kw.append("static_assert(sizeof(bool) == 1 && true); constexpr int c1 = 8; auto dd = 2.5; typeof(c1) c2 = !false; alignas(16) char al; thread_local static int tl = 1; k += c1 + (int)(dd * 2) + c2 + tl + (alignof(al) == 16);")
            self.kwv += 8 + 5 + 1 + 1 + 1
        else:
            kw.append("int bool = 1, true = 2, false = 3, nullptr = 4, alignas = 5, alignof = 6, thread_local = 7, constexpr = 8, static_assert = 9, typeof_unqual = 10;"
                      " k += bool + true + false + nullptr + alignas + alignof + thread_local + constexpr + static_assert + typeof_unqual;")
            self.kwv += 55
            if std is not None:
                kw.append("int typeof = 4, asm = 5; k += typeof + asm;")
                self.kwv += 9
            else:
                kw.append("typeof(k) k2 = 3; asm(\"\"); k += k2;")
                self.kwv += 3
        self.kw = "static int kw_%d(void) { int k = 0;\n" + "\n".join(kw) + "\nreturn k; }\n"
        if s.chance(20):
            self.pflags.append(["-fdefer-ts"])
            self.pv += 80000
        if s.chance(15):
            self.nostdinc = self.noheaders = True
            self.pflags.append(["-nostdinc"])
            self.pv += 40000
        if s.chance(15):
            self.pflags.append(s.choice([["-Uunix"], ["-U", "unix"]]))
            self.pv -= 160000
        if s.chance(10):
            self.pflags.append(["-U__x86_64__"])
            self.noheaders = True
            self.pv -= 320000

    def build(self):
        s = self.s
        self.options()
        mode = s.weighted([(40, "link"), (18, "c"), (14, "S"), (14, "E"), (14, "M")])
        n = s.weighted([(35, 1), (30, 2), (20, 3), (15, 4)])
        link = mode == "link"
        lk = s.weighted([(60, "exe"), (12, "shared"), (12, "r"), (16, "exe")]) if link else None
        kinds = {"link": ["c", "c", "c", "x", "s", "S", "o", "a", "l", "so", "stdin", "lo"], "c": ["c", "c", "x", "s", "S", "stdin"], "S": ["c", "c", "x", "stdin"], "E": ["c", "c", "x", "S", "stdin", "h"], "M": ["c", "c", "x", "S"]}[mode]
        if lk in ("shared", "r"):
            kinds = ["c", "c", "x", "s", "S", "o", "stdin"]
        units = []
        for j in range(n):
            u = self.unit(j, [k for k in kinds if k != "stdin" or not any(x["kind"] == "stdin" for x in units)])
            units.append(u)
        static = lk == "exe" and not any(u["kind"] == "so" for u in units) and s.chance(15)
        flags = []          # groups of words
        macros = {}
        # -D and -U, in order
        dus = []
        for _ in range(s.below(5)):
            m = s.choice(MAC)
            k = s.below(5)
            v = s.range(0, 9)
            if k < 3:
                dus.append([s.choice(["-D%s=%d", "-D %s=%d"]) % (m, v)])
                if dus[-1][0][2] == " ":
                    dus[-1] = ["-D", dus[-1][0][3:]]
                macros[m] = v
            elif k == 3:
                dus.append(["-D" + m])
                macros[m] = 1
            else:
                dus.append(s.choice([["-U" + m], ["-U", m]]))
                macros.pop(m, None)
        # the order of -D and -U counts, so they stay in order; everything else may stand between them
        incl = s.chance(15)
        if incl:
            # first as it stands, then along the include path; two of them in order
            k = s.below(4)
            if k < 2:
                self.files["pre inc.h"] = "#define INCV 5\n"
                flags.append(["-include", "pre inc.h"])
                inc = ["pre inc.h"]
            else:
                self.files["sy/pinc.h"] = "#error the wrong one\n"
                self.files["inc2/pinc.h"] = "#ifdef INC1\n#define INCV INC1\n#else\n#define INCV 5\n#endif\n"
                inc = ["inc2/pinc.h"]
                if k == 3:
                    self.files["in/p1.h"] = "#define INC1 (2+\\\n3)\n"
                    inc.append("in/p1.h")
                flags.append((["-include", "in/p1.h"] if k == 3 else []) + ["-include", "pinc.h"])
            incl = inc
        flags += [["-I."], s.choice([["-Iinc2"], ["-I", "inc2"]]), s.choice([["-isystem", "sy"], ["-idirafter", "sy"]])]
        for f in (["-O2"], ["-g"], ["-Wall"], ["-w"], ["-pthread"], ["-ffunction-sections"], ["-fdata-sections"], ["-O0"], ["-fno-common"], ["-fcommon"], ["-march=native"]):
            if s.chance(12):
                flags.append(f)
        pthread = ["-pthread"] in flags
        # -fpic and the like: the last one counts
        pics = []
        for _ in range(s.weighted([(75, 0), (15, 1), (10, 2)])):
            pics.append(s.choice(["-fPIC", "-fpic", "-fPIE", "-fpie", "-fno-pic", "-fno-PIE", "-fno-PIC", "-fno-pie"]))
        if lk == "shared":
            pics.append(s.choice(["-fPIC", "-fpic"]))
        elif link and pics and "no" in pics[-1]:
            pics.append(s.choice(["-fPIE", "-fpie"]))
        last = pics[-1] if pics else "-fPIE"
        pv = self.pv + (10000 if pthread else 0)
        if "no" not in last:
            pv += (2 if last[2:].isupper() else 1) * (1000 + (3000 if last[2:].lower() == "pie" else 0))
        if not self.probe:
            pv = 0
        flags += self.pflags
        wa = []
        if s.chance(20):
            w = s.sample(["--defsym=wa1=1", "--noexecstack", "--warn", "-mx86-used-note=no"], s.range(1, 2))
            flags.append(["-Wa," + ",".join(w)])
            wa += w
            if s.chance(40):
                flags.append(["-Wa,-I,inc2"])
                wa += ["-I", "inc2"]
        pietype = None
        if lk == "exe":
            k = s.below(10)
            if static:
                flags.append([s.choice(["-static", "-static", "-static-pie"])])
                pietype = "DYN" if flags[-1] == ["-static-pie"] else "EXEC"
            elif k == 0:
                flags.append([s.choice(["-no-pie", "-nopie"])])
                pietype = "EXEC"
            elif k == 1:
                flags.append(["-pie"])
                pietype = "DYN"
            elif k == 2:
                flags.append(["-s"])
            elif k == 3:
                flags.append(["-rdynamic"])
        elif lk == "shared":
            flags.append(["-shared"])
        elif lk == "r":
            flags.append(["-r"])
        dry = s.chance(5)
        if dry:
            flags.append(["-###"])
        # inputs
        groups = []
        libdir = False
        for u in units:
            if u["kind"] == "x":
                groups.append(["-x", "c", u["name"], "-x", "none"] if s.chance(70) else ["-xc", u["name"], "-xnone"])
            elif u["kind"] == "stdin" and mode == "E" and s.chance(50):
                groups.append(["-"])
            elif u["kind"] == "stdin":
                groups.append(["-x", "c", "-", "-x", "none"])
            elif u["kind"] == "l":
                libdir = True
                groups.append(s.choice([["-lq%d"], ["-l", "q%d"]]))
                groups[-1] = [w.replace("%d", str(u["j"])) for w in groups[-1]]
            else:
                groups.append([u["name"]])
        if libdir:
            flags.append(s.choice([["-Llib"], ["-L", "lib"]]))
        lastly = []
        tools = {"ld": "ld", "as": "as"}
        if s.chance(12):
            tools["ld"], f = s.choice([("ld.alt", "-fuse-ld=ld.alt"), ("ld.lld", "-fuse-ld=lld"), ("ld", "-fuse-ld=ld")])
            flags.append([f])
        if s.chance(10):
            tools["as"] = "as.alt"
            flags.append(["-fuse-as=as.alt"])
        nolib = {"start": False, "libs": False, "libc": False, "libgcc": False}
        if lk in ("exe", "shared") and s.chance(22):
            k = s.choice(["-nostartfiles", "-nodefaultlibs", "-nolibc", "-nostdlib", "-static-libgcc"])
            if static and k != "-static-libgcc":
                k = "-static-libgcc"
            flags.append([k])
            nolib["start"] = k in ("-nostartfiles", "-nostdlib")
            nolib["libs"] = k in ("-nodefaultlibs", "-nostdlib")
            nolib["libc"] = k == "-nolibc"
            nolib["libgcc"] = k == "-static-libgcc"
        if lk == "exe":
            self.main_text(units, nolib["start"])
            groups.insert(0, ["main.c"])
            if nolib["libs"] or nolib["libc"]:
                groups.append(["-lc"])
            if any(u["kind"] == "so" for u in units):
                lastly.append(["-Wl,-rpath," + "."])
            for _ in range(s.below(3)):
                lastly.append(s.choice([["-Wl,--as-needed"], ["-Wl,--no-as-needed"], ["-Xlinker", "--build-id"], ["-Wl,-z,now"], ["-lm"], ["-Wl,--hash-style=gnu,--warn-common"], ["-Wl,--whole-archive", None, "-Wl,--no-whole-archive"]]))
        elif lk:
            lastly = []
        # an archive with a constructor-like member that only --whole-archive keeps
        self.whole = None
        for g in list(lastly):
            if None in g:
                lastly.remove(g)
                if self.whole is None and lk == "exe":
                    self.whole = s.choice(["in", "out"])
                    self.files["main.c"] = self.files["main.c"].replace("int main(void) {", "int whole_v __attribute__((weak)); int main(void) { printf(\"W%d\\n\", whole_v); ")
                    if self.whole == "in":
                        groups.append(["-Wl,--whole-archive", "whole.a", "-Wl,--no-whole-archive"])
                    else:
                        groups.append(["-Wl,--whole-archive", "-Wl,--no-whole-archive", "whole.a"])
        for g in lastly:
            groups.insert(s.below(len(groups) + 1), g)
        out = None
        nin = sum(1 for u in units if u["kind"] != "l") + (lk == "exe")
        if s.chance(60) and (link or nin == 1):
            out = s.choice(["out.%s" % mode, "o/out.x", "out put", "o/prog"])
            if mode in ("E", "M") and s.chance(20):
                out = "-"
            flags.append(s.choice([["-o", out], ["-o" + out]]))
        # two inputs of one base name would write one file
        names = [os.path.basename(u["name"]) for u in units]
        md = None
        dep = {"mm": False, "mp": False, "mt": [], "mf": None}
        if mode == "M":
            dep["mm"] = s.chance(40)
            flags.append(["-MM" if dep["mm"] else "-M"])
        elif mode in ("c", "S", "E") and nin == 1 and units[0]["kind"] in ("c", "x") and s.chance(45):
            md = True
            dep["mm"] = s.chance(50)
            flags.append(["-MMD" if dep["mm"] else "-MD"])
        if mode == "M" or md:
            if s.chance(30):
                dep["mp"] = True
                flags.append(["-MP"])
            if nin == 1 and s.chance(35):
                dep["mf"] = s.choice(["dep.d", "o/x y.dep", "-"])
                if dep["mf"] == "-" and mode == "E" and out in (None, "-"):
                    dep["mf"] = "dep.d"
                flags.append(["-MF", dep["mf"]])
            for _ in range(s.weighted([(60, 0), (25, 1), (15, 2)])):
                q = s.chance(50)
                t = s.choice(["tgt", "x/y.o", "a$b", "t u"] if q else ["tgt", "x/y.o"])
                dep["mt"].append(t)
                flags.append(["-MQ" if q else "-MT", t])
        if mode in ("c", "S", "E"):
            flags.append(["-" + mode])
        if mode == "S" and s.chance(20):
            flags.append(["-c"])        # -S wins
        # interleave: flags anywhere, in any order except that macros and -MT, -Wa keep theirs
        keep = [f for f in flags if f[0] in ("-MQ", "-MT") or f[0].startswith("-Wa,")]
        free = [f for f in flags if f not in keep]
        s.shuffle(free)
        ordered = [dus, groups, keep, free, self.stds, [[w] for w in pics]]
        seq = []
        lists = [list(x) for x in ordered if x]
        while lists:
            i = s.below(len(lists))
            seq.append(lists[i].pop(0))
            if not lists[i]:
                lists.pop(i)
        argv = [w for g in seq for w in g]
        # -O, -std: no effect on values. A value:
        for u in units:
            if u["kind"] in ("c", "x", "stdin", "h"):
                u["value"] = u["v"] + u["hsum"] + sum(macros[m] * (i + 2) for i, m in enumerate(MAC) if m in macros) + (5 if incl else 0) + pv
            elif u["kind"] == "S":
                u["value"] = u["v"] + u["hsum"] + ("A" in macros)
            else:
                u["value"] = u["v"]
        ldseq = []
        for g in seq:
            if g in groups:
                i = 0
                while i < len(g):
                    w = g[i]
                    if w.startswith("-Wl,"):
                        ldseq += w[4:].split(",")
                    elif w == "-Xlinker":
                        i += 1
                        ldseq.append(g[i])
                    elif w in ("-x",):
                        i += 1
                    elif w in ("-xc", "-xnone"):
                        pass
                    elif w == "-l":
                        i += 1
                        ldseq.append("-l" + g[i])
                    elif w.endswith((".c", ".s", ".S")) or w == "-" or w in [u["name"] for u in units if u["kind"] == "x"]:
                        ldseq.append(None)      # a temporary object
                    else:
                        ldseq.append(w)
                    i += 1
        self.cls |= {mode, "inputs %d" % nin} | {"kind " + u["kind"] for u in units} | ({"dry run"} if dry else set()) | ({lk} if lk else set()) | ({"deps"} if mode == "M" or md else set())
        return {"mode": mode, "lk": lk, "units": units, "argv": argv, "out": out, "wa": wa, "dry": dry, "md": md, "dep": dep, "pietype": pietype, "incl": incl, "ldseq": ldseq, "whole": self.whole, "static": static, "names": names, "nin": nin,
                "tools": tools, "nolib": nolib, "pthread": pthread, "gstd": self.gstd, "nopic": "no" in last,
                "nopie": ["-no-pie"] in flags or ["-nopie"] in flags, "debug": ["-g"] in flags, "strip": ["-s"] in flags, "rdynamic": ["-rdynamic"] in flags,
                "fsec": ["-ffunction-sections"] in flags}

    def main_text(self, units, start):
        t = ("int printf(const char *, ...);\n" if self.noheaders else "#include <stdio.h>\n") + "".join("int val_%d(void);\n" % u["j"] for u in units)
        t += "int main(void) { " + "".join("printf(\"%%d\\n\", val_%d());" % u["j"] for u in units) + " return 0; }\n"
        if start:
            t += "__asm__(\".globl _start\\n_start: xorl %ebp, %ebp\\nandq $-16, %rsp\\ncall main\\nmovl %eax, %edi\\ncall exit@PLT\\n\");\n"
        self.files["main.c"] = t

    # ---- a fault
    def fault(self, c):
        s = self.s
        units, mode = c["units"], c["mode"]
        src = [u for u in units if u["kind"] in ("c", "x", "stdin", "h")]
        ops = ["limit"]
        asm = mode == "c" or mode == "link"
        nas = sum(1 for u in units if u["kind"] in ("c", "x", "stdin", "s", "S")) + (c["lk"] == "exe") if asm else 0
        files = [u for u in units if u["name"] != "-" and u["kind"] != "l"]
        if files:
            ops += ["missing", "directory"]
        if src and mode != "M":
            ops += ["syntax"] if mode != "E" else []
            ops += ["#error", "no header"]
        elif src:
            ops += ["no header"]
        if src and asm:
            ops.append("bad asm")
        if nas:
            ops += ["as fails"] * 3 + ["no as"]
        if mode == "link":
            ops += ["ld fails"] * 2 + ["no ld"]
            if c["lk"] == "exe":
                ops.append("undefined")
        ops += ["output in no directory", "output is a directory"] if (mode == "link" or c["nin"] == 1) and not (mode == "M" and c["dep"]["mf"]) else []
        if c["nin"] == 1 and mode in ("S", "E", "M") and not (mode == "M" and c["dep"]["mf"]):
            ops += ["output full"] * 2
        if c["dep"]["mf"] and c["dep"]["mf"] != "-":
            ops += ["deps full"] * 2
        if mode in ("c", "link") and nas:
            ops += ["mkstemp fails"] if any(u["kind"] != "s" for u in units) or mode == "link" else []
            ops += ["fork fails"] if nas else []
        if mode in ("c", "S", "E") and c["nin"] > 1:
            ops.append("-o with several inputs")
        ops += ["unknown option", "no option argument", "no input", "bad option argument"]
        f = s.choice(ops)
        r = {"op": f, "certain": True, "env": {}, "limit": None, "argv": list(c["argv"])}
        a = r["argv"]

        def setout(p):
            for i, w in enumerate(a):
                if w.startswith("-o") and c["out"] and w in ("-o", "-o" + c["out"]):
                    del a[i:i + (2 if w == "-o" else 1)]
                    break
            a.extend(["-o", p])
        if f == "limit":
            r["certain"] = False
            r["limit"] = s.choice([0, 1, 7, 64, 200, 500, 1000, 2000, 4000, 4096, 5000, 8192, 9000, 16000]) + s.below(64)
        elif f == "missing":
            r["rm"] = s.choice(files)["name"]
        elif f == "directory":
            r["rm"] = s.choice(files)["name"]
            r["mkdir"] = r["rm"]
        elif f in ("syntax", "#error", "no header", "bad asm"):
            u = s.choice(src)
            t = {"syntax": "int x_ = ;\n", "#error": "#error stop\n", "no header": "#include \"none.h\"\n", "bad asm": "__asm__(\"bogus_insn %eax\");\n"}[f]
            r["text"] = (u["name"], s.choice([u["text"] + t, t + u["text"]]))
        elif f == "as fails":
            r["env"]["STUB_FAULT"] = "as:%d:%s" % (s.range(1, nas), s.choice(["1", "255", "kill", "segv", "partial"]))
        elif f == "ld fails":
            r["env"]["STUB_FAULT"] = "ld:1:" + s.choice(["1", "255", "kill", "segv", "partial"])
        elif f == "no as":
            a.append("-fuse-as=./no-such-as")
        elif f == "no ld":
            a.append("-fuse-ld=./no-such-ld")
        elif f == "undefined":
            r["text"] = ("main.c", self.files["main.c"].replace("return 0;", "return undefined_fn_();").replace("int main", "int undefined_fn_(void);\nint main", 1))
        elif f == "output in no directory":
            setout("none/x")
        elif f == "output is a directory":
            r["mkdir"] = "isdir"
            setout("isdir")
        elif f == "output full":
            r["full"] = True
            setout("full")
        elif f == "deps full":
            r["full"] = True
            a[a.index("-MF") + 1] = "full"
        elif f == "mkstemp fails":
            r["env"]["SHIM_FAULT"] = "mkstemp1"
        elif f == "fork fails":
            r["env"]["SHIM_FAULT"] = "fork1"
        elif f == "-o with several inputs":
            a += ["-o", "several"]
        elif f == "unknown option":
            a.insert(0, s.choice(["-qqq", "--no-such", "-fno-such-thing", "-zzz"]))
        elif f == "bad option argument":
            a[0:0] = s.choice([["-std=c12"], ["--std=c7"], ["--std", "x11"], ["-x", "pascal"], ["-xada"], ["-std=c"]])
        elif f == "no option argument":
            a.append(s.choice(["-o", "-I", "-D", "-U", "-include", "-MF", "-MT", "-Xlinker", "-l", "-L", "-isystem", "-x", "--std", "-idirafter", "-MQ"]))
        elif f == "no input":
            ins = [u["name"] for u in units] + ["main.c", "whole.a"]
            r["argv"] = [w for w in a if w not in ins]
            r["argv"] = [w for i, w in enumerate(r["argv"]) if not w == "-x" and not (i and r["argv"][i - 1] == "-x") and w not in ("-xc", "-xnone")]
        return r


def rules(text):
    """the rules of a makefile fragment: [(targets, prerequisites)]"""
    out = []
    for line in text.replace("\\\n", " ").split("\n"):
        if not line.strip():
            continue
        words, cur, i, colon = [], "", 0, None
        while i < len(line):
            ch = line[i]
            if ch == "\\" and i + 1 < len(line) and line[i + 1] in " \t#\\:":
                cur += line[i + 1]
                i += 2
                continue
            if ch == "$" and line[i + 1:i + 2] == "$":
                cur += "$"
                i += 2
                continue
            if ch in " \t":
                if cur:
                    words.append(cur)
                cur = ""
            elif ch == ":" and colon is None and (i + 1 == len(line) or line[i + 1] in " \t"):
                if cur:
                    words.append(cur)
                cur = ""
                colon = len(words)
            elif ch == "#":
                break
            else:
                cur += ch
            i += 1
        if cur:
            words.append(cur)
        if colon is None:
            return None
        out.append((words[:colon], words[colon:]))
    return out


class C21(Check):
    id = "C21"
    technique = ("property-based testing with fault injection: generated command lines over generated inputs, with stand-ins for as and ld and an interposer for mkstemp and fork; runs, files written, "
                 "dependency lists, exit status and left-over temporary files compared with a model of the driver")
    level_note = "Random exploration with a fixed seed: no absence claim. Faults: failing inputs, tools, outputs, process and temporary-file creation, and file-size limits."
    rule = "a case is one command line with its inputs; non-trivial if a tool ran, or a fault was injected and noticed"
    batches = {"quick": 500, "thorough": 12000}
    per = 6

    def setup(self, ctx):
        d = os.path.join(ctx.base, "c21tools")
        os.makedirs(d, exist_ok=True)
        cc.write(d + "/stub.c", STUB)
        cc.write(d + "/shim.c", SHIM)
        for argv in (["gcc", "-O1", "-w", "-o", d + "/as", d + "/stub.c"], ["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", d + "/shim.so", d + "/shim.c", "-ldl"]):
            r = cc.run(argv, timeout=60)
            if r.rc:
                raise RuntimeError(r.err)
        for n in ("ld", "ld.alt", "as.alt", "ld.lld"):
            shutil.copy(d + "/as", d + "/" + n)
        # objects of the units that come as such: val_N returns a value given at assembly time
        self.tools = d

    def put(self, d, c):
        for n, t in c["files"].items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            cc.write(os.path.join(d, n), t)
        for x in ("in", "sy", "inc2", "lib", "o"):
            os.makedirs(os.path.join(d, x), exist_ok=True)
        for u in c["units"]:
            if u["text"] is not None:
                continue
            asm = ".globl val_%d\n.type val_%d, @function\n.text\nval_%d: movl $%d, %%eax\nret\n.section .note.GNU-stack,\"\",@progbits\n" % (u["j"], u["j"], u["j"], u["v"])
            p = os.path.join(d, u["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            o = p if u["kind"] in ("o", "lo") else os.path.join(d, ".tmp.o")
            r = cc.run(["/usr/bin/as", "-o", o, "-"], stdin=asm.encode(), timeout=20)
            if u["kind"] in ("a", "l"):
                cc.run(["ar", "rcs", p, o], timeout=20)
            elif u["kind"] == "so":
                cc.run(["/usr/bin/ld", "-shared", "-soname", u["name"], "-o", p, o], timeout=20)
            if o != p:
                os.unlink(o)
        if c["whole"]:
            cc.run(["/usr/bin/as", "-o", d + "/.tmp.o", "-"], stdin=b".globl whole_v\n.data\n.type whole_v,@object\n.size whole_v,4\nwhole_v: .long 77\n", timeout=20)
            cc.run(["ar", "rcs", d + "/whole.a", d + "/.tmp.o"], timeout=20)
            os.unlink(d + "/.tmp.o")

    def listing(self, d):
        out = set()
        for root, dirs, fs in os.walk(d):
            for f in fs:
                out.add(os.path.relpath(os.path.join(root, f), d))
        return out

    def drive(self, ctx, comp, d, argv, stdin, env=None, limit=None):
        """(result, tool calls, temporary files made)"""
        log, slog = d + ".stub", d + ".shim"
        for f in (log, slog):
            if os.path.exists(f):
                os.unlink(f)
        e = dict(os.environ, PATH=self.tools + ":" + os.environ["PATH"], STUB_LOG=log, SHIM_LOG=slog, LD_PRELOAD=self.tools + "/shim.so", **(env or {}))
        if limit is not None:
            r = cc.run([comp, *argv], cwd=d, stdin=stdin, timeout=60, env=e, fsize=limit)
        else:
            r = cc.run([comp, *argv], cwd=d, stdin=stdin, timeout=60, env=e)
        calls = [l.split("\x1f") for l in open(log, encoding="utf-8", errors="replace").read().split("\n") if l] if os.path.exists(log) else []
        tmps = open(slog).read().split() if os.path.exists(slog) else []
        for f in (log, slog):
            if os.path.exists(f):
                os.unlink(f)
        return r, calls, tmps

    def left(self, tmps):
        l = [t for t in tmps if os.path.isfile(t)]
        for t in l:
            if t.startswith("/tmp/slimcc-"):
                os.unlink(t)
        return l

    # ---- the model
    def written(self, c):
        """the files that have to appear, other than dependency lists"""
        if c["dry"]:
            return set()
        m = c["mode"]
        if m == "link":
            return {c["out"] or "a.out"}
        if c["out"]:
            return {c["out"]} - {"-"} if not (m == "M" and c["dep"]["mf"]) else set()
        if m in ("c", "S"):
            ext = {"c": ".o", "S": ".s"}[m]
            return {os.path.splitext(os.path.basename(u["name"]))[0] + ext if u["name"] != "-" else "-" + ext for u in c["units"]}
        return set()

    def depfile(self, c):
        """(path or None for stdout, target)"""
        u = c["units"][0]
        d = c["dep"]
        base = os.path.splitext(os.path.basename(u["name"]))[0]
        tgt = base + ".o"
        if c["mode"] == "M":
            p = d["mf"] or c["out"] or "-"
        else:
            p = d["mf"] or (os.path.splitext(c["out"])[0] + ".d" if c["out"] and c["out"] != "-" else base + ".d" if not c["out"] else None)
            if c["out"] and c["mode"] != "E":
                tgt = c["out"]
        return p, d["mt"] or [tgt]

    def check_deps(self, c, text):
        got = rules(text)
        if got is None:
            return "dependency list is not a list of rules: %r" % text[:200]
        d = c["dep"]
        units = c["units"]
        i = 0
        for u in units:
            if i >= len(got):
                return "no dependency list for %s" % u["name"]
            t, p = got[i]
            i += 1
            want = {u["name"]} | set(u["deps"]) | (set() if d["mm"] else set(u["sysdeps"])) | set(c["incl"] or [])
            tgt = d["mt"] or [self.depfile(dict(c, units=[u]))[1][0]]
            if t != tgt:
                return "dependency list of %s has target %s, want %s" % (u["name"], t, tgt)
            have = [os.path.normpath(x) for x in p]
            loc = {x for x in have if not x.startswith("/")}
            if loc != {os.path.normpath(x) for x in want}:
                return "dependency list of %s names %s, the files read are %s" % (u["name"], sorted(loc), sorted(want))
            if len(set(have)) != len(have):
                return "dependency list of %s names a file twice: %s" % (u["name"], have)
            o = [x for x in have if x.startswith("/")]
            if bool(o) != (u["out"] and not d["mm"]):
                return "dependency list of %s: system headers %s" % (u["name"], o)
            if d["mp"]:
                ph = []
                while i < len(got) and not got[i][1]:
                    ph += got[i][0]
                    i += 1
                ph = [os.path.normpath(x) for x in ph]
                if {x for x in ph if not x.startswith("/")} != {os.path.normpath(x) for x in want} - {os.path.normpath(u["name"])}:
                    return "-MP of %s: phony targets %s, headers %s" % (u["name"], ph, sorted(want))
        if i != len(got):
            return "more rules than inputs: %s" % got[i:]
        return None

    def expected_out(self, c):
        t = "".join("%d\n" % u["value"] for u in c["units"])
        if c["whole"]:
            t = "W%d\n" % (77 if c["whole"] == "in" else 0) + t
        return t

    def tool_calls(self, c, calls):
        if c["dry"]:
            return "-### ran %s" % calls if calls else None
        nas = 0
        if c["mode"] in ("c", "link"):
            nas = sum(1 for u in c["units"] if u["kind"] in ("c", "x", "stdin", "s", "S")) + (c["lk"] == "exe")
        AS, LD = c["tools"]["as"], c["tools"]["ld"]
        a = [x for x in calls if x[0] == AS]
        l = [x for x in calls if x[0] == LD]
        if len(a) + len(l) != len(calls):
            return "ran %s, want only %s and %s" % (sorted({x[0] for x in calls}), AS, LD)
        if len(a) != nas or len(l) != (c["mode"] == "link"):
            return "ran as %d times and ld %d times, want %d and %d" % (len(a), len(l), nas, c["mode"] == "link")
        if any(x[0] == AS for x in calls[nas:]) or (l and calls[-1][0] != LD):
            return "tools run in the wrong order: %s" % [x[0] for x in calls]
        for x in a:
            it = iter(x)
            if not all(w in it for w in c["wa"]):
                return "as got %s, want %s in order" % (x[1:], c["wa"])
        if l:
            x = l[0][1:]
            w, i = [], 0
            while i < len(x):      # -l m and -lm are the same
                if x[i] == "-l" and i + 1 < len(x):
                    w.append("-l" + x[i + 1])
                    i += 1
                else:
                    w.append(x[i])
                i += 1
            i = 0
            for want in c["ldseq"]:
                while i < len(w) and not (w[i] == want or (want is None and w[i].startswith("/tmp/"))):
                    i += 1
                if i == len(w):
                    return "ld got %s, want in order %s" % (x, ["<object>" if y is None else y for y in c["ldseq"]])
                i += 1
            return self.ld_parts(c, w)
        return None

    def ld_parts(self, c, w):
        """start files and libraries that the kind of output and the options call for"""
        lk, no = c["lk"], c["nolib"]
        stat, spie = "-static" in c["argv"], "-static-pie" in c["argv"]
        crt = [os.path.basename(x) for x in w if re.search(r"/[a-zA-Z]*crt[a-zA-Z0-9]*\.o$", x)]
        if lk == "r" or no["start"]:
            want = []
        elif lk == "shared":
            want = ["crti.o", "crtbeginS.o", "crtendS.o", "crtn.o"]
        elif spie:
            want = ["rcrt1.o", "crti.o", "crtbeginS.o", "crtendS.o", "crtn.o"]
        elif stat:
            want = ["crt1.o", "crti.o", "crtbeginT.o", "crtend.o", "crtn.o"]
        elif c["nopie"]:
            want = ["crt1.o", "crti.o", "crtbegin.o", "crtend.o", "crtn.o"]
        else:
            want = ["Scrt1.o", "crti.o", "crtbeginS.o", "crtendS.o", "crtn.o"]
        if sorted(crt) != sorted(want) or (want and (crt[0] != want[0] or crt[-1] != want[-1])):
            return "start files linked: %s, want %s" % (crt, want)
        n = lambda x: w.count(x) - c["argv"].count(x)
        libs = lk != "r" and not no["libs"]
        have = {"-lc": n("-lc"), "-lgcc": n("-lgcc"), "-lpthread": n("-lpthread"), "-lgcc_s": n("-lgcc_s"), "-lgcc_eh": n("-lgcc_eh")}
        st = stat or spie
        want = {"-lc": libs and not no["libc"], "-lgcc": libs, "-lpthread": libs and c["pthread"], "-lgcc_s": libs and not st and not no["libgcc"], "-lgcc_eh": libs and (st or no["libgcc"])}
        bad = [x for x in have if (have[x] > 0) != bool(want[x])]
        if bad:
            return "libraries linked: %s, want %s" % ([x for x in have if have[x] > 0], [x for x in want if want[x]])
        return None

    def sections(self, c, path):
        """what -g, -s, -rdynamic and -ffunction-sections leave in an object or executable"""
        t = cc.run(["readelf", "-SW", path], timeout=20).out
        src = [u for u in c["units"] if u["kind"] in ("c", "x", "stdin")]
        if c["mode"] == "c" and src and c["out"] is None or c["mode"] == "c" and len(c["units"]) == 1:
            u = next((u for u in src if os.path.splitext(os.path.basename(path))[0] == os.path.splitext(os.path.basename(u["name"]))[0]), src[0] if len(c["units"]) == 1 and src else None)
            if u:
                if (".debug_line" in t) != c["debug"]:
                    return "%s: line table %s" % (path, "without -g" if not c["debug"] else "missing with -g")
                if (".text.val_%d" % u["j"] in t) != c["fsec"]:
                    return "%s: -ffunction-sections %s, sections: %s" % (path, "given" if c["fsec"] else "not given", re.findall(r"\.text\S*", t))
        if c["lk"] == "exe":
            if (".symtab" in t) == c["strip"]:
                return "symbol table with -s" if c["strip"] else "no symbol table"
            if c["rdynamic"] and not c["static"] and not re.search(r"\bmain$", cc.run(["readelf", "-W", "--dyn-syms", path], timeout=20).out, re.M):
                return "-rdynamic: main is not in the dynamic symbol table"
        return None

    def check_normal(self, ctx, d, c, comp, ref=False):
        before = self.listing(d)
        r, calls, tmps = self.drive(ctx, comp, d, c["argv"], c["stdin"])
        left = self.left(tmps)
        if r.rc != 0:
            return "fails (rc=%s) on a valid command line: %s" % (r.rc, r.err[-300:])
        if left:
            return "leaves temporary files %s" % left
        after = self.listing(d)
        new = after - before
        want = self.written(c)
        deps = None
        if not c["dry"] and (c["mode"] == "M" or c["md"]):
            p, tgt = self.depfile(c)
            if p is None:       # -MD with output to stdout
                new -= {"-.d", "..d"}
            elif p == "-":
                deps = r.out
            else:
                want.add(p)
        if {os.path.normpath(x) for x in new} != {os.path.normpath(x) for x in want}:
            return "writes %s, want %s" % (sorted(new), sorted(want))
        if not ref:
            what = self.tool_calls(c, calls)
            if what:
                return what
        if c["dry"]:
            return None
        if not c["dry"] and (c["mode"] == "M" or c["md"]):
            if p and p != "-":
                deps = open(os.path.join(d, p)).read()
            if deps is not None:
                if c["md"] and p == "-" and c["mode"] == "E":
                    pass
                else:
                    what = self.check_deps(c, deps)
                    if what:
                        return what
        return self.use(ctx, d, c, r)

    def use(self, ctx, d, c, r):
        """do the outputs work?"""
        m, exp = c["mode"], self.expected_out(c)
        drv = "#include <stdio.h>\n" + "".join("int val_%d(void);\n" % u["j"] for u in c["units"]) + "int main(void) { " + "".join("printf(\"%%d\\n\", val_%d());" % u["j"] for u in c["units"]) + " return 0; }\n"
        exe = os.path.join(d, "check.exe")
        if m == "M":
            return None
        if m == "link" and c["lk"] == "exe":
            exe = os.path.join(d, c["out"] or "a.out")
            if c["pietype"]:
                h = cc.run(["readelf", "-h", exe], timeout=20).out
                if not re.search(r"Type:\s+%s\b" % c["pietype"], h):
                    return "executable is not of type %s" % c["pietype"]
            what = self.sections(c, exe)
            if what:
                return what
        else:
            cc.write(os.path.join(d, "drv.c"), drv)
            outs = sorted(self.written(c))
            if m == "E":
                t = r.out if not c["out"] or c["out"] == "-" else open(os.path.join(d, c["out"])).read()
                if c["md"] and c["dep"]["mf"] == "-":
                    return None
                if any(u["kind"] == "S" for u in c["units"]):
                    if len(c["units"]) > 1:
                        return None
                    cc.write(os.path.join(d, "chk.s"), t)
                    ins = ["chk.s"]
                else:
                    cc.write(os.path.join(d, "chk.i.c"), t)
                    ins = [c["gstd"], "chk.i.c"]
            elif m == "S":
                for i, o in enumerate(outs):
                    shutil.copy(os.path.join(d, o), os.path.join(d, "chk%d.s" % i))
                ins = ["chk%d.s" % i for i in range(len(outs))]
            else:
                for i, o in enumerate(outs):
                    if m == "c":
                        what = self.sections(c, os.path.join(d, o))
                        if what:
                            return what
                    shutil.copy(os.path.join(d, o), os.path.join(d, "libchk%d.so" % i if c["lk"] == "shared" else "chk%d.o" % i))
                ins = ["./libchk%d.so" % i if c["lk"] == "shared" else "chk%d.o" % i for i in range(len(outs))]
            g = cc.run(["gcc", "-w", "-o", exe, "drv.c", *ins, "-Wl,-rpath,.", *(["-no-pie"] if c["nopic"] else [])], cwd=d, timeout=60)
            if g.rc:
                return "the output does not link: " + g.err[-400:]
            exp = "".join("%d\n" % u["value"] for u in c["units"])
        x = cc.run([exe], cwd=d, timeout=20)
        if x.rc or x.out != exp:
            return "the program prints %r (rc=%s), want %r" % (x.out, x.rc, exp)
        return None

    def apply_fault(self, d, f):
        if f.get("rm"):
            os.unlink(os.path.join(d, f["rm"]))
        if f.get("mkdir"):
            os.makedirs(os.path.join(d, f["mkdir"]))
        if f.get("text") and f["text"][0] != "-":
            cc.write(os.path.join(d, f["text"][0]), f["text"][1])
        if f.get("full"):
            os.symlink("/dev/full", os.path.join(d, "full"))

    def check_fault(self, ctx, d, c, f, comp):
        self.apply_fault(d, f)
        stdin = f["text"][1].encode() if f.get("text") and f["text"][0] == "-" else c["stdin"]
        r, calls, tmps = self.drive(ctx, comp, d, f["argv"], stdin, f["env"], f["limit"])
        left = self.left(tmps)
        if r.timeout or (r.rc is not None and r.rc < 0 and f["limit"] is None):
            return "%s: ends by signal %s" % (f["op"], r.rc), False
        killed = r.rc is not None and r.rc < 0        # at the file size limit, and then it cannot clean up
        if left and not killed:
            return "%s: leaves temporary files %s" % (f["op"], left), False
        if f["certain"] and r.rc == 0:
            return "%s: exit status 0 (%s)" % (f["op"], r.err[-200:]), False
        if f["limit"] is not None and r.rc == 0:
            # success: then everything is as without the limit
            d2 = ctx.fresh()
            self.put(d2, c)
            r2, _, _ = self.drive(ctx, comp, d2, c["argv"], c["stdin"])
            if r.out != r2.out:
                return "file size limit %d: exit status 0 with other standard output" % f["limit"], False
            for o in sorted(self.listing(d2)):
                p = os.path.join(d, o)
                if not os.path.exists(p) or (os.path.getsize(p) != os.path.getsize(os.path.join(d2, o))):
                    return "file size limit %d: exit status 0, but %s is not complete" % (f["limit"], o), False
            return None, False
        return None, r.rc != 0

    def case(self, s):
        g = Gen(s)
        c = g.build()
        c["files"] = g.files
        c["stdin"] = b""
        for u in c["units"]:
            if u["name"] == "-":
                c["stdin"] = u["text"].encode()
        f = None
        if not c["dry"] and s.chance(50):
            f = g.fault(c)
        # output files that stand for one another
        names = list(self.written(c)) if c["mode"] in ("c", "S") else []
        if c["mode"] in ("c", "S") and not c["dry"] and not c["out"] and len(names) != len(c["units"]):
            return None
        ins = [os.path.normpath(u["name"]) for u in c["units"]]
        if len(set(ins)) != len(ins) or any(os.path.normpath(n) in ins for n in self.written(c)):
            return None
        return c, f, g.cls | ({"fault: " + f["op"]} if f else set())

    def judge(self, ctx, c, f, comp=None):
        d = ctx.fresh()
        self.put(d, c)
        comp = comp or ctx.builds["default"]
        if f:
            what, nt = self.check_fault(ctx, d, c, f, comp)
        else:
            what, nt = self.check_normal(ctx, d, c, comp), True
        if not what:
            return None, nt
        stdin = c["stdin"].decode()
        files = dict(c["files"])
        if f and f.get("text"):
            files[f["text"][0]] = f["text"][1]
        return Failure(what, dict(files, **({"stdin": stdin} if stdin else {})), expected="see the statement", actual=what,
                       cmd="slimcc " + " ".join("'%s'" % w if re.search(r"[\s$#]", w) else w for w in (f or c)["argv"]),
                       extra={"case": {k: v for k, v in c.items() if k not in ("files", "stdin")}, "fault": f, "files0": c["files"], "stdin": stdin}), nt

    def run_batch(self, ctx, idx, src, stats):
        for _ in range(self.per):
            s = Src(src.bits(62))
            x = self.case(s)
            if x is None:
                stats.discarded += 1
                continue
            c, f, cls = x
            fl, nt = self.judge(ctx, c, f)
            stats.case(repr((c["argv"], c["files"], f)), nt, sorted(cls))
            if fl:
                fl.choices = s.log
                stats.failures.append(fl)

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        x = self.case(s)
        if x is None:
            return None
        fl, nt = self.judge(ctx, x[0], x[1])
        if fl:
            fl.choices = s.log
        return fl

    def replay_record(self, ctx, rec):
        if not rec.get("extra"):
            return self.recheck(ctx, rec["choices"])
        e = rec["extra"]
        c = dict(e["case"], files=e["files0"], stdin=e["stdin"].encode())
        return self.judge(ctx, c, e["fault"])[0]


CHECK = C21()
