"""C17: code-generation and linking options never change what a program does."""
import os
from lib import cc, corpus
from lib.diff import UnitCheck, split_units
from lib.engine import Check, Failure, Src, seed_for

NAMES = ["c01", "c03", "c04", "c05", "c06", "c07", "c08", "c11", "c13"]
COMMON = r'''
int printf(const char *, ...); int fflush(void *); int strcmp(const char *, const char *); unsigned long strlen(const char *);
struct FP_; extern struct FP_ *stdout; int fputs(const char *, struct FP_ *); extern char **environ; int atoi(const char *);
typedef unsigned long u64; typedef struct R { int a; char b[3]; struct R *next; long c; double d; unsigned bf : 7; } R;
'''
BASE = [[], ["-O0"], ["-O1"], ["-O2", "-g"], ["-O0", "-g"], ["-fstack-reuse=none"], ["-fstack-reuse=all", "-O3"], ["-g3"], ["-g", "-g0"], ["-O0", "-O1"]]
SECT = [[], [], ["-ffunction-sections"], ["-fdata-sections"], ["-ffunction-sections", "-fdata-sections"]]
STDS = [[], ["-std=c23"], ["-std=c17"], ["-std=c11"], ["-std=c99"], ["-std=c89"], ["-ansi"]]
PIC = [["-fPIC"], ["-fpic"]]
PIE = [["-fPIE"], ["-fpie"], []]
NOPIC = [["-fno-pic"], ["-fno-PIE"], ["-fno-pie"], ["-fno-PIC"]]


class Obj:
    def __init__(self, name, kind, owner, decl, defn, lv, ro=False):
        # kind: i (int lvalues), f function, p pointer to int, s string
        self.name, self.kind, self.owner, self.decl, self.defn, self.lv, self.ro = name, kind, owner, decl, defn, lv, ro


class Linked:
    """Two files that share functions and objects of every storage class."""

    def __init__(self, src, common):
        self.src, self.classes, self.objs, self.common = src, set(), [], common
        self.n = 0
        for _ in range(src.range(4, 11)):
            self.make()

    def name(self):
        self.n += 1
        return "g%d" % self.n

    def visible(self, who, kinds):
        return [o for o in self.objs if o.kind in kinds and o.owner in (who, "AB")]

    def make(self):
        s = self.src
        n = self.name()
        owner = s.choice("AB")
        k = s.weighted([(12, "int"), (8, "arr"), (8, "rec"), (8, "tls"), (7, "tlsrec"), (6, "static"), (4, "stls"), (8, "ptr"), (7, "fn"), (5, "fptab"),
                        (4, "weakdef"), (4, "weakundef"), (4, "common"), (5, "const"), (4, "ptrtab"), (4, "alias"), (4, "hidden"), (3, "str"),
                        (3, "section"), (4, "cptr"), (3, "bss"), (3, "libfn")])
        self.classes.add(k)
        v = [s.range(-1000, 1000) for _ in range(4)]
        if k == "int":
            t = s.choice(["int", "long", "unsigned", "short", "char", "unsigned char", "volatile int"])
            self.add(n, "i", owner, "extern %s %s;" % (t, n), "%s %s = %d;" % (t, n, v[0] % 100), [n])
        elif k == "bss":
            self.add(n, "i", owner, "extern int %s[64];" % n, "int %s[64];" % n, ["%s[%d]" % (n, s.below(64)), n + "[I & 63]"])
        elif k == "arr":
            self.add(n, "i", owner, "extern int %s[5];" % n, "int %s[5] = {%d, %d, %d};" % (n, *v[:3]), ["%s[%d]" % (n, s.below(5)), "(*(%s + %d))" % (n, s.below(5)), "%s[I & 3]" % n])
        elif k == "rec":
            self.add(n, "i", owner, "extern R %s;" % n, "R %s = {%d, {1, %d}, &%s, %d, 2.5, %d};" % (n, v[0], v[1] % 100, n, v[2], v[3] % 100),
                     [n + ".a", n + ".b[1]", n + ".c", n + ".next->a", n + ".next->next->c", n + ".bf", "(&%s)->b[I & 1]" % n])
        elif k == "tls":
            ini = s.choice(["", " = %d" % v[0]])
            self.add(n, "i", owner, "extern __thread int %s;" % n, "__thread int %s%s;" % (n, ini), [n, "(*&" + n + ")"])
        elif k == "tlsrec":
            self.add(n, "i", owner, "extern __thread R %s[2];" % n, "__thread R %s[2]%s;" % (n, s.choice(["", " = {{%d, {3}}, {%d}}" % (v[0], v[1])])),
                     [n + "[1].a", n + "[I & 1].c", n + "->b[2]", n + "[0].bf"])
        elif k == "static":
            self.add(n, "i", owner, "", "static %s %s[3] = {%d, %d};" % (s.choice(["int", "long", "short", "const int"]), n, v[0], v[1]), [n + "[0]", n + "[I %% 3]" % ()], True)
            self.objs[-1].ro = "const" in self.objs[-1].defn
        elif k == "stls":
            self.add(n, "i", owner, "", "static __thread long %s[2]%s;" % (n, s.choice(["", " = {%d}" % v[0]])), [n + "[0]", n + "[I & 1]"])
        elif k == "ptr":
            tg = [o for o in self.visible(owner, "i") if "[" in o.decl and "int" in o.decl and "__thread" not in o.decl and "R" not in o.decl]
            g = [o for o in self.objs if o.decl.startswith("extern int") and "[" in o.decl]
            if g:
                o = s.choice(g)
                self.add(n, "p", owner, "extern int *%s;" % n, "int *%s = &%s[%d];" % (n, o.name, s.below(4)), ["(*" + n + ")", n + "[0]"])
            else:
                self.add(n, "i", owner, "extern long %s;" % n, "long %s = %d;" % (n, v[0]), [n])
        elif k == "cptr":
            g = [o for o in self.objs if o.decl.startswith("extern int") and "[" in o.decl]
            if g:
                o = s.choice(g)
                stat = s.choice(["static ", ""])
                self.add(n, "i", owner, "" if stat else "extern int *const %s[2];" % n, "%sint *const %s[2] = {%s + 1, &%s[%d]};" % (stat, n, o.name, o.name, s.below(3)),
                         ["(*%s[0])" % n, "(*%s[1])" % n, "%s[I & 1][0]" % n])
        elif k == "fn":
            static = s.chance(30)
            self.add(n, "f", owner, "" if static else "int %s(int, long);" % n,
                     "%sint %s(int x, long y) { static int calls; calls++; return x * %d + (int)y + calls + I; }" % ("static " if static else "", n, v[0] % 50), [])
        elif k == "fptab":
            fs = [o for o in self.objs if o.kind == "f" and (o.owner == owner or o.decl)]
            if fs:
                f = [s.choice(fs).name for _ in range(2)]
                c = s.choice(["", "const "])
                self.add(n, "t", owner, "extern int (*%s%s[2])(int, long);" % (c, n), "int (*%s%s[2])(int, long) = {%s, &%s};" % (c, n, f[0], f[1]), [])
        elif k == "weakdef":
            self.add(n, "i", owner, "extern int %s;" % n, "__attribute__((weak)) int %s = %d;" % (n, v[0]), [n])
            if s.chance(40):
                # the other file has the strong one
                self.objs[-1].over = "int %s = %d;" % (n, v[1])
                self.classes.add("weak-overridden")
        elif k == "weakundef":
            if s.chance(50):
                self.add(n, "w", "AB", "extern int %s __attribute__((weak));" % n, "", [])
            else:
                self.add(n, "wf", "AB", "int %s(void) __attribute__((weak));" % n, "", [])
        elif k == "common":
            if self.common:
                t = s.choice(["int %s[4];", "int %s[4];"]) % n
                self.add(n, "i", "AB", t, "", ["%s[%d]" % (n, s.below(4)), n + "[I & 3]"])
            else:
                self.add(n, "i", owner, "extern int %s[4];" % n, "int %s[4];" % n, ["%s[%d]" % (n, s.below(4))])
        elif k == "const":
            self.add(n, "i", owner, "extern const int %s[3];" % n, "const int %s[3] = {%d, %d, %d};" % (n, *v[:3]), [n + "[2]", n + "[I % 3]"], True)
        elif k == "ptrtab":
            self.add(n, "s", owner, "extern const char *%s[3];" % n, "const char *%s[3] = {\"a%d\", \"bc%d\" + 1, \"\"};" % (n, v[0], v[1]), [n + "[0]", n + "[1]", n + "[I % 3]"])
        elif k == "str":
            self.add(n, "s", owner, "extern char %s[];" % n, "char %s[] = \"str%d\";" % (n, v[0]), [n, n + " + 1"])
        elif k == "alias":
            if s.chance(50):
                self.add(n, "i", owner, "extern int %s;" % n, "int %s_t = %d; extern int %s __attribute__((alias(\"%s_t\")));" % (n, v[0], n, n), [n])
            else:
                self.add(n, "f", owner, "int %s(int, long);" % n, "int %s_t(int x, long y) { return x - (int)y * %d; } int %s(int, long) __attribute__((alias(\"%s_t\")));" % (n, v[0] % 9, n, n), [])
        elif k == "hidden":
            vis = s.choice(["hidden", "protected", "internal", "hidden"])
            self.add(n, "i", owner, "", "__attribute__((visibility(\"%s\"))) int %s[2] = {%d, 7};" % (vis, n, v[0]), [n + "[0]", n + "[I & 1]"])
        elif k == "section":
            self.add(n, "i", owner, "extern int %s;" % n, "__attribute__((section(\"mysec\"))) int %s = %d;" % (n, v[0]), [n])
        elif k == "libfn":
            self.add(n, "l", "AB", "", "", [])

    def add(self, *a):
        self.objs.append(Obj(*a))

    def rd(self, who):
        """an int-valued expression"""
        s = self.src
        c = [o for o in self.objs if o.kind in "ip" and (o.owner == who or o.decl)]
        if not c or s.chance(15):
            return str(s.range(0, 99))
        o = s.choice(c)
        return "(int)" + s.choice(o.lv)

    def stmts(self, who, n):
        s = self.src
        out = []
        vis = [o for o in self.objs if o.owner == who or o.decl or o.owner == "AB"]
        for _ in range(n):
            if not vis:
                break
            o = s.choice(vis)
            k = o.kind
            if k in "ip":
                lv = s.choice(o.lv)
                f = s.below(10)
                if f < 3 and not o.ro and not (k == "i" and "const" in o.defn):
                    out.append("%s %s %s;" % (lv, s.choice(["=", "+=", "^=", "-=", "|=", "&="]), self.rd(who)))
                elif f == 3 and not o.ro and "const" not in o.defn:
                    out.append(s.choice(["%s++;", "--%s;", "P(%s++);", "P(++%s);"]) % lv)
                elif f == 4 and not lv.endswith("bf") and k == "i":
                    out.append("{ const volatile void *q = &%s; P(q == (void *)&%s); P(q != 0); }" % (lv, lv))
                elif f == 5:
                    out.append("if (%s %s %s) P(1); else P(2);" % (lv, s.choice(["<", "==", ">", "!="]), self.rd(who)))
                elif f == 6:
                    out.append("P((u64)%s %s %s);" % (lv, s.choice(["+", "*", "-", "^"]), self.rd(who)))
                elif f == 7 and k == "p":
                    out.append("{ int *sv = %s; %s = &I; P(%s == &I); %s = sv; P(%s[0]); }" % ((o.name,) * 5))
                elif f == 7 and o.name in lv and o.decl.startswith("extern R"):
                    out.append("{ R c = %s; c.a++; P(c.a); P(c.c); P((long)(c.d * 4)); P(c.next == &%s); %s = c; P(%s.a); }" % ((o.name,) * 4))
                else:
                    out.append("P(%s);" % lv)
            elif k == "f":
                f = s.below(4)
                if f == 0:
                    out.append("{ int (*p)(int, long) = %s; P(p == %s); P(p == &%s); P(p(%s, 3)); }" % (o.name, o.name, o.name, self.rd(who)))
                elif f == 1 and o.decl:
                    out.append("P(%s == addr_%s());" % (o.name, o.name))
                else:
                    out.append("P(%s(%s, %s));" % (o.name, self.rd(who), self.rd(who)))
            elif k == "t":
                out.append("P(%s[%s](%s, 5)); P(%s[0] != 0);" % (o.name, s.choice(["0", "1", "I & 1"]), self.rd(who), o.name))
            elif k == "w":
                out.append(s.choice(["P(&%s == 0);", "if (&%s) P(1); else P(2);", "P(&%s ? 3 : 4);", "{ int *q = &%s; P(!q); }"]) % o.name)
            elif k == "wf":
                out.append(s.choice(["P(%s == 0);", "if (%s) P(%s());  else P(2);", "P(&%s ? 3 : 4);", "{ int (*q)(void) = %s; P(!q); }"]).replace("%s", o.name))
            elif k == "s":
                out.append('printf("%%s\\n", %s);' % s.choice(o.lv) if s.below(2) else "P(strlen(%s));" % s.choice(o.lv))
            elif k == "l":
                out.append(s.choice(['fputs("lib\\n", stdout);', "P(environ != 0);", 'P(atoi == addr_atoi());', '{ int (*p)(const char *) = atoi; P(p("42")); }',
                                     "P(strcmp == addr_strcmp());", 'P((&strlen)("abc"));', "P(&stdout == addr_stdout());", "P(&environ == addr_environ());"]))
        for i, st in enumerate(list(out)):
            if s.chance(8):
                out[i] = "{ static void *lab[2] = {&&l1_%d, &&l2_%d}; goto *lab[I & 1]; l1_%d: P(101); l2_%d:; } %s" % (self.uq(), self.n, self.n, self.n, st)
            elif s.chance(6):
                out[i] = "switch (I) { case 5: P(55); case 3: %s break; default: P(9); }" % st
            elif s.chance(6):
                out[i] = "for (int k%d = 0; k%d < 2; k%d++) { %s }" % (self.uq(), self.n, self.n, st) if False else "{ int k; for (k = 0; k < 2; k++) { %s } }" % st
        return out

    def uq(self):
        self.n += 1
        return self.n

    def files(self):
        s = self.src
        res = {}
        bodies = {"A": [self.stmts("A", s.range(3, 9)) for _ in range(2)], "B": [self.stmts("B", s.range(3, 9)) for _ in range(2)]}
        for who, other in (("A", "B"), ("B", "A")):
            t = [COMMON, "extern int I; void P(u64 v);" if who == "B" else "int I = 3; void P(u64 v) { printf(\"%lx\\n\", v); }"]
            for o in self.objs:
                if o.decl:
                    t.append(o.decl)
                if o.kind == "f" and o.decl:
                    t.append("int (*addr_%s(void))(int, long);" % o.name)
            t.append("int (*addr_atoi(void))(const char *); int (*addr_strcmp(void))(const char *, const char *); void *addr_stdout(void); void *addr_environ(void);")
            for o in self.objs:
                if o.owner == who and o.defn:
                    t.append(o.defn)
                if o.owner == other and getattr(o, "over", None):
                    t.append(o.over)
                if o.owner == other and o.kind == "f" and o.decl:
                    t.append("int (*addr_%s(void))(int, long) { return %s; }" % (o.name, o.name))
            if who == "B":
                t.append("int (*addr_atoi(void))(const char *) { return atoi; } int (*addr_strcmp(void))(const char *, const char *) { return &strcmp; }"
                         " void *addr_stdout(void) { return &stdout; } void *addr_environ(void) { return (void *)&environ; }")
            nm = {"A": ("a1", "a2"), "B": ("b1", "b2")}[who]
            for f, b in zip(nm, bodies[who]):
                t.append("void %s(void) {\n%s\n}" % (f, "\n".join(b)))
            ct = s.chance(30)
            if ct:
                t.append("__attribute__((constructor)) static void ctor_%s(void) { I %s; }" % (who, "= I * 2 + 1"))
            if who == "A":
                t.append("void b1(void); void b2(void); int corpus_main(void);\nint main(void) { printf(\"@@I\\n\"); P(I); I = 3; a1(); b1(); I = 4; b2(); a2(); b1(); printf(\"@@C\\n\"); fflush(0); int r = corpus_main(); printf(\"@@R\\n\"); P(r); fflush(0); return 0; }")
            res[who] = "\n".join(t) + "\n"
        return res


def scenario(s, common, noshared, cn):
    """(per-file options for A B C, which files gcc compiles, link options, shared library members)"""
    link = s.choice(["pie", "pie", "nopie", "nopie", "static", "staticpie", "relocatable"] if noshared else ["pie", "pie", "nopie", "nopie", "static", "staticpie", "shared", "shared-nopie", "shared-pic", "relocatable"])
    picset = {"pie": PIC + PIE, "nopie": PIC + PIE + NOPIC, "static": PIC + PIE + NOPIC, "staticpie": PIC + PIE, "relocatable": PIC + PIE,
              "shared": PIC + PIE, "shared-nopie": PIC + PIE + NOPIC, "shared-pic": PIC}[link]
    files = {}
    so = []
    if link.startswith("shared"):
        so = s.choice([["B"], ["B", "C"], ["C"]])
    for f in "ABC":
        o = s.choice(BASE) + s.choice(SECT)
        o = o + s.choice(PIC if f in so else picset)
        if f != "C":
            o = o + s.choice(STDS)
        if f == "C" and cn == "c05" and "-fstack-reuse=none" in o:
            o.remove("-fstack-reuse=none")      # documented design: without stack reuse a VLA lives until the function returns
        files[f] = o
        if common:
            files[f] = files[f] + ["-fcommon"]
        elif s.chance(20):
            files[f] = files[f] + [s.choice(["-fcommon", "-fno-common"])]
    gccf = [f for f in "AB" if s.chance(12)]
    if not gccf and s.chance(10):
        for f in "ABC":
            files[f] = files[f] + ["-femulated-tls"]
    if not so and not gccf and s.chance(10):
        files["C"] = files["C"] + ["-fvisibility=hidden"] if False else files["C"]
    lk = {"pie": s.choice([[], ["-pie"]]), "nopie": ["-no-pie"], "static": ["-static"], "staticpie": ["-static-pie"], "relocatable": [],
          "shared": [], "shared-nopie": ["-no-pie"], "shared-pic": []}[link]
    if s.chance(15):
        lk = lk + ["-Wl,--gc-sections"]
    if s.chance(10) and "-static" not in lk and "-static-pie" not in lk:
        lk = lk + ["-rdynamic"]
    if s.chance(10):
        lk = lk + ["-s"]
    return {"files": files, "gcc": gccf, "link": link, "lk": lk, "so": so}


class C17(Check):
    id = "C17"
    technique = ("property-based testing: generated multi-file programs, each built under several random combinations of code-generation and link options; "
                 "metamorphic relation (same output), with gcc, clang and sanitizers as reference")
    level_note = ("Random exploration with a fixed seed: no absence claim. A difference counts only when gcc -O0, gcc -O2, clang and the sanitizers agree on the output.")
    rule = ("a case is one program of three files (two sharing objects and functions of every storage class, binding and visibility, one from the other checks' "
            "generators) under one option combination; non-trivial if the combination differs from the default")
    batches = {"quick": 420, "thorough": 9000}
    k = 5

    def gen(self, s):
        common = s.chance(25)
        L = Linked(s, common)
        fs = L.files()
        text, flags, cn = corpus.tu(s, nunits=s.range(2, 5), names=NAMES)
        fs["C"] = "#define main corpus_main\n" + text
        uch = s.chance(12) and cn != "c13"  # gcc and clang compute unsigned character constants in #if as uintmax_t; slimcc as C says
        return fs, flags, cn, L.classes, common, uch

    def ref(self, d, fs, comp, extra, uch, common, name):
        fl = (cc.GCC_FLAGS if comp == "gcc" else cc.CLANG_FLAGS) + list(extra) + (["-funsigned-char"] if uch else []) + (["-fcommon"] if common else [])
        for f, t in fs.items():
            cc.write(os.path.join(d, f + ".c"), t)
        r = cc.run([comp, *fl, "-o", name, "A.c", "B.c", "C.c"], cwd=d, timeout=120)
        if r.rc:
            return None, r.err
        r = cc.run(["./" + name], cwd=d, timeout=20, env=dict(cc.ENV, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0"))
        if r.rc or r.timeout or "runtime error" in r.err:
            return None, "run rc=%s %s" % (r.rc, r.err[:300])
        return split_units(r.out), None

    def build(self, ctx, d, fs, flags, sc, uch):
        """Res of the failing command, or None; and the command list"""
        S = ctx.builds["default"]
        u = ["-funsigned-char"] if uch else []
        objs = {}
        cmds = []
        for f in "ABC":
            cc.write(os.path.join(d, f + ".c"), fs[f])
            o = "%s.o" % f
            if f in sc["gcc"]:
                fl = [x for x in sc["files"][f] if not x.startswith(("-std", "-ansi", "-O", "-g", "-fstack-reuse"))]
                if not any(x.lower() in ("-fpic", "-fpie", "-fno-pic", "-fno-pie") for x in fl):
                    fl.append("-fPIE")
                cmd = ["gcc", *cc.GCC_FLAGS, *fl, *u, "-c", "-o", o, f + ".c"]
            else:
                cmd = [S, "-w", *(flags if f == "C" else []), *sc["files"][f], *u, "-c", "-o", o, f + ".c"]
            cmds.append(" ".join(["slimcc"] + cmd[1:] if cmd[0] == S else cmd))
            r = cc.run(cmd, cwd=d, timeout=60)
            if r.rc:
                return r, cmds
            objs[f] = o
        main = [objs[f] for f in "ABC" if f not in sc["so"]]
        if sc["so"]:
            # a library that refers back to the program: undefined symbols are allowed in it
            cmd = [S, "-shared", "-o", "liby.so", *[objs[f] for f in sc["so"]]]
            cmds.append(" ".join(["slimcc"] + cmd[1:]))
            r = cc.run(cmd, cwd=d, timeout=60)
            if r.rc:
                return r, cmds
            main += ["./liby.so"]
        if sc["link"] == "relocatable":
            cmd = [S, "-r", "-o", "r.o", *main]
            cmds.append(" ".join(["slimcc"] + cmd[1:]))
            r = cc.run(cmd, cwd=d, timeout=60)
            if r.rc:
                return r, cmds
            main = ["r.o"]
        cmd = [S, *sc["lk"], "-o", "s.exe", *main]
        cmds.append(" ".join(["slimcc"] + cmd[1:]))
        r = cc.run(cmd, cwd=d, timeout=60)
        return (r if r.rc else None), cmds

    def judge(self, ctx, case, sc, ref=None):
        fs, flags, cn, cl, common, uch = case
        d = ctx.fresh()
        if ref is None:
            ref, why = self.ref(d, fs, "gcc", (), uch, common, "g.exe")
            if ref is None:
                return None
        bad, cmds = self.build(ctx, d, fs, flags, sc, uch)
        what = None
        if bad is not None:
            what = "a build step fails: " + (bad.err.strip()[-250:] or repr(bad))
            got = bad.err[-2000:]
        else:
            r = cc.run(["./s.exe"], cwd=d, timeout=20)
            g = split_units(r.out)
            if g == ref and r.rc == 0:
                return None
            got = r.out[-3000:] + "\nrc=%s" % r.rc
            for k in sorted(ref):
                if ref[k] != g.get(k):
                    a, b = (g.get(k) or ["<missing>"]) + ["<end>"], ref[k] + ["<end>"]
                    what = "other output under these options (rc=%s): " % r.rc + next(("part %s got %s want %s" % (k, x[:100], y[:100]) for x, y in zip(a, b) if x != y), "truncated")
                    break
            else:
                what = "exit status %s under these options" % r.rc
        if not self.trusted(d, case, ref):
            return None
        return Failure(what + " [%s %s]" % (sc["link"], " ".join(sc["lk"])), {f + ".c": t for f, t in fs.items()}, expected=str(ref)[:3000], actual=got, cmd="; ".join(cmds) + "; ./s.exe",
                       extra={"sc": sc, "flags": flags, "common": common, "uch": uch, "cn": cn})

    def trusted(self, d, case, ref):
        fs, flags, cn, cl, common, uch = case
        for comp, extra in (("clang", []), ("gcc", ["-O2"]), ("gcc", cc.SAN_FLAGS)):
            if comp == "clang" and cn == "c05":
                continue
            r, why = self.ref(d, fs, comp, extra, uch, common, "t.exe")
            if r != ref:
                return False
        return True

    def run_batch(self, ctx, idx, src, stats):
        case = self.gen(src)
        base = list(src.log)
        d = ctx.fresh()
        ref, why = self.ref(d, case[0], "gcc", (), case[5], case[4], "g.exe")
        if ref is None:
            stats.discarded += 1
            stats.notes.append("no reference: " + why[:200])
            return
        for _ in range(self.k):
            s2 = Src(src.bits(62))
            sc = scenario(s2, case[4], "weak-overridden" in case[3], case[2])
            stats.case("\n".join(case[0].values()) + repr(sc), True, [case[2], "link:" + sc["link"]] + sorted(case[3]) + sorted(set(o for f in sc["files"].values() for o in f)) +
                       sc["lk"] + (["mixed with gcc objects"] if sc["gcc"] else []))
            f = self.judge(ctx, case, sc, ref)
            if f:
                f.choices = base + s2.log
                stats.failures.append(f)
                break

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        case = self.gen(s)
        sc = scenario(s, case[4], "weak-overridden" in case[3], case[2])
        f = self.judge(ctx, case, sc)
        if f:
            f.choices = s.log
        return f

    def replay_record(self, ctx, rec):
        if rec.get("choices") and not rec["extra"].get("sc"):
            return self.recheck(ctx, rec["choices"])
        e = rec["extra"]
        fs = {k[0]: v for k, v in rec["files"].items()}
        return self.judge(ctx, (fs, e["flags"], e.get("cn", ""), set(), e["common"], e["uch"]), e["sc"])


CHECK = C17()
