"""C22: linkage, binding, placement. Histories of declarations across files, judged by the symbol tables that gcc
gives the same files and by what the linked programs print, for every mixture of object files."""
import os, re
from lib import cc
from lib.engine import Check, Failure, Src

HEAD = r'''
int printf(const char *, ...);
#define P(x) printf("%s %ld\n", #x, (long)(x))
#define A(x, n) printf("align %s %d\n", #x, (int)((unsigned long)&(x) % (n)))
'''
SYM = re.compile(r"\s*\d+:\s+([0-9a-f]+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(?:\[.*?\]\s*)?(\S+)\s+(\S+)\s*$")
SEC = re.compile(r"\s*\[\s*(\d+)\]\s+(\S+)\s+(\S+)\s+[0-9a-f]+\s+[0-9a-f]+\s+[0-9a-f]+\s+[0-9a-f]+\s+([A-Za-z]*)\s+\d+\s+\d+\s+(\d+)")
MODES = [
    ([], []),
    (["-fPIC"], []),
    (["-fno-pic"], ["-no-pie"]),
    (["-fcommon"], []),
    (["-fno-common", "-O0"], []),
    (["-ffunction-sections", "-fdata-sections"], ["-Wl,--gc-sections"]),
    (["-fPIC", "-fvisibility=hidden"], []),
    (["-fcommon", "-fno-pic"], ["-no-pie"]),
]


class Ent:
    pass


class Gen:
    def __init__(self, s):
        self.s = s
        self.cls = set()
        self.nt = s.choice([1, 2, 2, 3])
        self.tu = [{"decl": [], "use": [], "top": []} for _ in range(self.nt)]
        self.n = 0
        self.exempt = set()
        self.names = set()
        self.prior = [101, 102, 110, 127, 128, 200, 255, 256, 257, 300, 357, 511, 512, 613, 999, 1000, 1001, 1024, 4096, 9999, 10000, 32767, 32768, 40000, 65279, 65534]
        s.shuffle(self.prior)
        self.mode = s.below(len(MODES))
        self.nocommon_clash = set()
        self.calls = []         # order of use calls in main
        self.secs = set()

    def name(self, k="g"):
        self.n += 1
        n = "%s%d" % (k, self.n)
        if self.s.chance(8):
            n += self.s.choice(["_$x", "é", "_" * 30, "_long_" * 12])
        self.names.add(n)
        return n

    def add(self, tu, seq, use=None):
        """seq: file-scope lines in order"""
        self.tu[tu]["decl"].append(list(seq))
        if use:
            self.tu[tu]["use"].append(use)

    def vtype(self):
        """declarator pattern, incomplete pattern or None, initialiser, lvalue, is zero by default"""
        s = self.s
        k = s.below(9)
        v = s.range(1, 120)
        if k < 3:
            t = s.choice(["int", "char", "long", "short", "unsigned", "unsigned char", "double", "_Bool", "volatile int"])
            return t + " %s", None, str(v if t != "_Bool" else 1), "%s"
        if k < 5:
            n = s.choice([1, 2, 3, 5, 16, 40])
            t = s.choice(["int", "char", "short", "long"])
            return t + " %s" + "[%d]" % n, t + " %s[]", "{ [%d] = %d }" % (n - 1, v), "%%s[%d]" % (n - 1)
        if k == 5:
            return "struct { int a; char b[%d]; long c; } %%s" % s.choice([1, 7, 9]) if False else "R %s", None, "{ %d, { 1, 2 }, %d }" % (v, v + 1), s.choice(["%s.a", "%s.b[1]", "%s.c"])
        if k == 6:
            return "int (*%s)[4]" if False else "int %s[2][3]", "int %s[][3]", "{ { %d }, { 0, 0, %d } }" % (v, v), "%s[1][2]"
        if k == 7:
            return "const char *%s", None, '"text%d" + %d' % (v, s.below(3)), "*%s"
        return "long long %s", None, "%dll << 33" % v, "%s"

    def redecls(self, d, inc, store, tls, attrs):
        """compatible redeclarations that define nothing"""
        s = self.s
        r = []
        for _ in range(s.below(4)):
            p = d
            if inc and s.chance(50):
                p = inc
                self.cls.add("incomplete redeclaration")
            r.append("%s%s%s%s;" % (store, tls, p % "NAME", s.choice(attrs)))
        return r

    def variable(self):
        s = self.s
        n = self.name()
        d, inc, ini, lv = self.vtype()
        own = s.below(self.nt)
        tls = s.choice(["_Thread_local ", "__thread "]) if s.chance(18) else ""
        const = not tls and s.chance(15) and "volatile" not in d and not d.startswith("const")
        if const:
            d, inc = "const " + d, inc and "const " + inc
            self.cls.add("const")
        zero = s.chance(35) and not d.startswith("const")
        if tls:
            self.cls.add("thread-local")
        attrs = [""]
        k = s.below(10)
        al = 0
        sec = vis = None
        if k == 0:
            vis = s.choice(["hidden", "protected", "internal", "default"])
            attrs = [' __attribute__((visibility("%s")))' % vis]
            self.cls.add("visibility")
        elif k == 1 and not tls and not const:
            sec = "sec_" + s.choice("abc") + ("" if zero is False else "z")
            attrs = [' __attribute__((section("%s")))' % sec]
            self.cls.add("section")
        elif k == 2:
            al = s.choice([16, 32, 64])
            attrs = [" __attribute__((aligned(%d)))" % al]
            self.cls.add("aligned")
        elif k == 3 and not const:
            attrs = [" __attribute__((weak))"]
            self.cls.add("weak definition")
        static = s.chance(25)
        if static:
            if vis or "weak" in attrs[0]:
                attrs = [""]
            self.cls.add("internal linkage")
        # the owner's history
        D = d % n
        hist = []
        if static:
            pre = ["static %s%s%s;" % (tls, D, attrs[0])] if s.chance(40) and not tls and not const else []
            if const:
                zero = False
            hist = pre + ["static %s%s%s%s;" % (tls, D, attrs[0], "" if zero else " = " + ini)]
            for _ in range(s.below(3)):
                hist.append("extern %s%s;" % (tls, s.choice([d, inc or d]) % n))
            if not tls and not const and s.chance(20):
                hist.insert(s.below(len(pre) + 1), "static %s;" % D)
        else:
            ext = self.redecls(d, inc, "extern ", tls, [""])
            ext = [e.replace("NAME", n) for e in ext]
            if const:
                zero = False
            if zero:
                self.cls.add("tentative")
                if tls or const or sec:
                    defs = ["%s%s%s;" % (tls, D, attrs[0])]
                else:
                    defs = ["%s%s;" % (D, attrs[0])] + ["%s;" % D] * s.below(2)
                    if inc and s.chance(50):
                        defs.insert(0, "%s;" % (inc % n) if attrs[0] == "" else "extern %s;" % (inc % n))
                        self.cls.add("tentative array")
            else:
                defs = ["%s%s%s%s = %s;" % (s.choice(["", "", "extern "]), tls, D, attrs[0], ini)]
                if not tls and not const and not sec and s.chance(40):
                    t = "%s%s;" % (D, attrs[0])
                    defs.insert(s.below(2) if attrs[0] == "" else 0, t)
                    self.cls.add("tentative then defined")
                    if inc and s.chance(40):
                        defs.append("%s;" % (inc % n)) if False else None
            if attrs[0] and "section" not in attrs[0] and "aligned" not in attrs[0] and s.chance(30):
                # the attribute sits on a declaration only
                a = attrs[0]
                defs = [x.replace(a, "") for x in defs]
                defs.insert(0, "extern %s%s%s;" % (tls, D, a))
                self.cls.add("attribute on a declaration")
            at = s.below(len(ext) + 1)
            hist = ext[:at] + defs + ext[at:]
            if any("weak" in h for h in hist) or any("visib" in h for h in hist):
                pass
        use = []
        L = lv % n
        show = "P(%s);" % L if d != "double %s" else "P(%s * 2);" % L
        use.append(show)
        if al:
            use.append("A(%s, %d);" % (n, al))
        if "[" in d or d.startswith(("R", "const R")):
            use.append("P(sizeof %s);" % n)
        mod = None
        if not const and d != "const char *%s":
            mod = "%s %s= %d;" % (L, "+" if "_Bool" not in d else "", s.range(1, 9))
            use.append(mod)
        self.add(own, hist, " ".join(use))
        if static:
            # the same name elsewhere is another object
            for t in range(self.nt):
                if t != own and s.chance(50):
                    self.cls.add("same static name in two files")
                    self.add(t, ["static int %s = %d;" % (n, s.range(1, 99))], "P(%s++);" % n)
            if s.chance(30):
                self.add(own, [], "{ extern %s%s; P(sizeof(%s) + 0 * (long)&%s); %s }" % (tls, D, n, n, show))
                self.tu[own]["use"].append("{ int %s = 7; { extern %s%s; %s } P(%s); }" % (n, tls, D, show, n)) if False else None
            return
        for t in range(self.nt):
            if t == own and not s.chance(25):
                continue
            if t != own and s.chance(20):
                continue
            form = s.below(4)
            E = "extern %s" % tls
            p = inc if inc and s.chance(40) else d
            vz = ""
            if vis and s.chance(60):
                vz = attrs[0]
            u = show + (" " + mod if mod and s.chance(60) else "")
            if form < 2:
                self.add(t, ["%s%s%s;" % (E, p % n, vz)] + (["%s%s;" % (E, D)] if s.chance(30) else []), u) if t != own else self.add(t, [], u)
            elif form == 2:
                self.cls.add("block-scope extern")
                self.add(t, [], "{ %s%s%s; %s }" % (E, p % n, vz if t != own else "", u))
            else:
                self.cls.add("block-scope extern")
                self.add(t, [], "{ %s%s; { int %s = 3; { %s%s; %s } P(%s); } }" % (E, D, n, E, D, u, n))
        if MODES[self.mode][0][:1] == ["-fcommon"] and zero and not tls and attrs[0] in ("", " __attribute__((aligned(%d)))" % al) and not const:
            # commons in several files merge
            for t in range(self.nt):
                if t != own and s.chance(50):
                    self.cls.add("common in several files")
                    self.add(t, ["%s%s;" % (D, attrs[0])], show)

    def function(self):
        s = self.s
        n = self.name("f")
        own = s.below(self.nt)
        k = s.below(10)
        v = s.range(1, 9999)
        proto = s.choice(["int %s(void)", "int %s(int)", "int %s(int, ...)", "long %s(long, char *)"])
        call = {"int %s(void)": "%s()", "int %s(int)": "%s(3)", "int %s(int, ...)": "%s(2, 3)", "long %s(long, char *)": "%s(5, 0)"}[proto] % n
        defp = proto.replace("(int)", "(int a)").replace("(int, ...)", "(int a, ...)").replace("(long, char *)", "(long a, char *b)")
        body = "{ return %d%s; }" % (v, "" if "void" in proto else " + a")
        pr = proto % n
        de = defp % n
        attr = ""
        if k == 0:
            attr = '__attribute__((visibility("%s"))) ' % s.choice(["hidden", "protected", "internal", "default"])
            self.cls.add("function visibility")
        elif k == 1:
            attr = '__attribute__((section("%s"))) ' % s.choice(["tsec_a", "tsec_b", ".text.mine"])
            self.cls.add("function section")
        elif k == 2:
            attr = "__attribute__((weak)) "
            self.cls.add("weak function")
        elif k == 3:
            r = self.name("real")
            self.names.add(r)
            hist = ["%s __asm__(\"%s\");" % (pr, r), "%s %s" % (de, body)]
            self.cls.add("asm name")
            self.add(own, hist, "P(%s); { %s = %s; P((*q)%s); }" % (call, proto % "(*q)", n, call[len(n):]))
            self.tu[own]["use"].append("{ static %s = %s; P((*sq)%s); }" % (proto % "(*sq)", n, call[len(n):]))
            for t in range(self.nt):
                if t != own:
                    if s.chance(50):
                        self.add(t, ["%s;" % (proto % r)], "P(%s);" % call.replace(n, r))
                    else:
                        o = self.name("other")
                        self.add(t, ["%s __asm__(\"%s\");" % (proto % o, r)], "P(%s);" % call.replace(n, o))
            return
        kind = s.below(10)
        others = [t for t in range(self.nt) if t != own]
        if kind < 3:
            hist = []
            for _ in range(s.below(3)):
                hist.append("%s%s;" % (s.choice(["", "extern "]), pr))
            hist.append("%s%s%s %s" % (attr, s.choice(["", "extern "]), de, body))
            for _ in range(s.below(2)):
                hist.append("%s%s;" % (s.choice(["", "extern "]), pr))
            if attr and "weak" in attr and s.chance(50):
                hist = ["%s%s;" % (attr, pr)] + [h.replace(attr, "") for h in hist]
                self.cls.add("attribute on a declaration")
            self.add(own, hist, "P(%s);" % call)
        elif kind < 5:
            self.cls.add("static function")
            a = attr if "visib" not in attr and "weak" not in attr else ""
            hist = ["static %s;" % pr] if s.chance(60) else []
            hist += ["%s%s;" % (s.choice(["static ", "extern ", ""]), pr) for _ in range(s.below(2))] if hist else []
            hist += ["%s%s%s %s" % (a, s.choice(["static ", "", "extern "]) if hist else "static ", de, body)]
            hist += ["%s;" % pr] if s.chance(30) else []
            self.add(own, hist, "P(%s);" % call if s.chance(80) else "")
            for t in others:
                if s.chance(50):
                    self.cls.add("same static name in two files")
                    self.add(t, ["static %s { return %d; }" % (de, v + 1)], "P(%s);" % call)
            return
        elif kind == 5:
            self.cls.add("static inline")
            und = self.name("undef")
            hist = ["static inline %s %s" % (de, body)]
            if s.chance(50):
                # never referenced: what it refers to is not needed either
                w = self.name("dead")
                hist += ["int %s(void);" % und, "static inline int %s(void) { return %s() + %s; }" % (w, und, call)]
                self.cls.add("unreferenced static inline")
                if s.chance(50):
                    w2 = self.name("dead")
                    hist += ["static inline int %s(void) { return %s(); }" % (w2, w)]
            chain = call
            if s.chance(60):
                for _ in range(s.range(1, 3)):
                    w = self.name("w")
                    hist += ["static inline int %s(void) { return %s + 1; }" % (w, chain)]
                    chain = w + "()"
                self.cls.add("chain of static inlines")
            use = "P(%s);" % chain
            q = s.below(5)
            fn = chain[:-2] if chain != call else None
            if q == 0 and fn:
                hist.append("static int (*tab%s[])(void) = { %s, %s };" % (n, fn, fn))
                use = "P(tab%s[1]());" % n
                self.cls.add("referenced from a table only")
            elif q == 1 and fn:
                use = "{ static int (*const p)(void) = %s; P(p()); }" % fn
                self.cls.add("referenced from a static local only")
            elif q == 2 and fn:
                use = "P((&%s == 0) + (*%s)());" % (fn, fn)
            self.add(own, hist, use)
            return
        elif kind == 6:
            self.cls.add("extern inline")
            hist = s.choice([["extern inline %s %s" % (de, body)], ["inline %s;" % pr, "extern inline %s %s" % (de, body)],
                             ["inline %s %s" % (de, body), "extern %s;" % pr], ["inline %s %s" % (de, body), "%s;" % pr],
                             ["inline %s %s" % (de, body), "extern inline %s;" % pr], ["extern %s;" % pr, "inline %s %s" % (de, body)],
                             ["%s;" % pr, "inline %s %s" % (de, body), "inline %s;" % pr], ["inline %s;" % pr, "%s %s" % (de, body)],
                             ["static %s;" % pr, "inline %s %s" % (de, body)]])
            self.add(own, hist, "P(%s);" % call)
            if hist[0].startswith("static"):
                return
            for t in others:
                if s.chance(40):
                    # an inline copy of the same function
                    self.cls.add("inline definition beside an external one")
                    self.add(t, ["inline %s %s" % (de, body)], "P(%s);" % call)
                    self.exempt.add(n)
                else:
                    self.add(t, ["%s;" % pr], "P(%s);" % call)
            return
        elif kind == 7:
            self.cls.add("gnu_inline")
            if self.nt == 1:
                return
            hist = ["extern inline __attribute__((gnu_inline)) %s { return %d; }" % (de, v)]
            self.add(own, hist, "P(%s);" % call)
            o = s.choice(others)
            self.add(o, ["%s { return %d; }" % (de, v)], "P(%s);" % call)
            self.exempt.add(n)
            return
        else:
            self.add(own, ["%s%s %s" % (attr, de, body)], "P(%s);" % call)
        for t in others:
            f = s.below(5)
            if f == 0:
                continue
            if f == 1:
                self.cls.add("block-scope prototype")
                self.add(t, [], "{ %s%s; P(%s); }" % (s.choice(["", "extern "]), pr, call))
            elif f == 2:
                self.cls.add("address of a function")
                self.add(t, ["%s;" % pr, "%s = %s;" % ("static " + (proto % ("(*pp%s)" % n)), n)], "P((*pp%s)%s);" % (n, call[len(n):]))
            else:
                self.add(t, ["%s%s;" % (s.choice(["", "extern "]), pr)], "P(%s);" % call)

    def weak(self):
        s = self.s
        k = s.below(4)
        n = self.name("w")
        if k == 0:
            self.cls.add("weak undefined")
            t = s.below(self.nt)
            if s.chance(50):
                self.add(t, ["extern int %s __attribute__((weak));" % n], "P(&%s != 0); if (&%s) P(%s);" % (n, n, n))
            else:
                d = s.choice(["int %s(void) __attribute__((weak));", "__attribute__((weak)) int %s(void);", "extern __attribute__((__weak__)) int %s(void);"]) % n
                self.add(t, [d], "P(%s != 0); if (%s) P(%s());" % (n, n, n))
        elif self.nt > 1:
            self.cls.add("weak and strong")
            a, b = s.sample(range(self.nt), 2)
            if k == 1:
                self.add(a, [s.choice(["__attribute__((weak)) int %s = 1;", "int %s __attribute__((weak)) = 1;"]) % n], "P(%s);" % n)
                self.add(b, ["int %s = 2;" % n], "P(%s);" % n)
            else:
                self.add(a, ["__attribute__((weak)) int %s(void) { return 1; }" % n], "P(%s());" % n)
                self.add(b, ["int %s(void) { return 2; }" % n], "P(%s());" % n)

    def alias(self):
        s = self.s
        n, t = self.name("al"), self.name("tg")
        own = s.below(self.nt)
        wk = ", weak" if s.chance(25) else ""
        self.cls.add("alias" + (" weak" if wk else ""))
        st = s.chance(20)
        pre = "static " if st else s.choice(["", "extern "])
        if wk and st:
            pre = ""
            st = False
        if s.chance(50):
            d = s.choice(["int", "long", "short"])
            hist = ["%s%s %s = %d;" % ("static " if s.chance(30) else "", d, t, s.range(1, 99)),
                    "%s%s %s __attribute__((alias(\"%s\")%s));" % ("extern " if not st else "static ", d, n, t, wk)]
            if st:
                return
            use, oth = "P(%s); P(++%s); P(%s); P(&%s == &%s);" % (n, t, n, n, t), "extern %s %s;" % (d, n)
            ouse = "P(%s--);" % n
        else:
            hist = ["%sint %s(int a) { return a * %d; }" % ("static " if s.chance(30) else "", t, s.range(2, 99)),
                    "%sint %s(int a) __attribute__((alias(\"%s\")%s));" % (pre, n, t, wk)]
            use, oth = "P(%s(3)); P(%s(4));" % (n, t), "int %s(int);" % n
            ouse = "P(%s(5));" % n
            if st:
                ouse = None
        if s.chance(30):
            hist.insert(0, oth if ouse else "static int %s(int);" % n)
        self.add(own, hist, use)
        for o in range(self.nt):
            if o != own and ouse and s.chance(60):
                self.add(o, [oth], ouse)

    def ctors(self):
        s = self.s
        self.cls.add("constructors")
        for _ in range(s.range(1, 4)):
            t = s.below(self.nt)
            n = self.name("c")
            kind = s.choice(["constructor", "destructor"])
            pri = ""
            if s.chance(75) and self.prior:
                pri = "(%d)" % self.prior.pop()
                self.cls.add("priority")
            elif (kind in self.nocommon_clash):
                continue
            else:
                self.nocommon_clash.add(kind)
            st = s.choice(["static ", ""])
            at = "__attribute__((%s%s)) " % (s.choice([kind, "__%s__" % kind]), pri)
            body = "{ printf(\"%s %s\\n\"); }" % (kind, n)
            f = s.below(3)
            if f == 0:
                h = ["%s%svoid %s(void) %s" % (at, st, n, body)]
            elif f == 1:
                h = ["%svoid %s(void) %s;" % (st, n, at), "%svoid %s(void) %s" % (st, n, body)]
                self.cls.add("attribute on a declaration")
            else:
                h = ["%s%svoid %s(void);" % (at, st, n), "%svoid %s(void) %s" % (st, n, body)]
            self.add(t, h)

    def statics(self):
        """block-scope statics: one object per declaration"""
        s = self.s
        self.cls.add("static locals")
        t = s.below(self.nt)
        n, f = self.name("sl"), self.name("fn")
        ty = s.choice(["int", "long", "static int" if False else "short", "unsigned char"])
        tls = s.choice(["", "", "_Thread_local "])
        k = s.below(4)
        if k == 0:
            h = ["int %s(void) { static %s%s %s = %d; { static %s %s; %s += 2; if (%s > 4) return %s; } return %s++; }" % (f, tls, ty, n, s.range(1, 50), ty, n, n, n, n, n)]
        elif k == 1:
            h = ["static inline int %s(int a) { static %s%s %s[3] = { 1, [2] = %d }; return %s[a]++; }" % (f, tls, ty, n, s.range(2, 50), n),
                 "int %s_(void) { static int %s = 1; return %s(2) * 10 + %s(0) + %s++; }" % (f, n, f, f, n)]
            self.names.add(f + "_")
            f += "_"
        elif k == 2:
            h = ["int %s(void) { static int %s = 3; static int *p = &%s; static struct { int *q; } %s_ = { &%s }; ++*p; return *%s_.q; }" % (f, n, n, n, n, n)]
        else:
            h = ["int %s(void) { int r = 0; for (int i = 0; i < 3; i++) { static int %s; r = r * 10 + ++%s; } { extern int %s_; r += %s_; } return r; }" % (f, n, n, n, n),
                 "int %s_ = %d;" % (n, s.range(1, 50))]
            self.names.add(n + "_")
        self.add(t, h, "P(%s()); P(%s());" % (f, f))
        # file-scope object of the same name in another file
        for o in range(self.nt):
            if o != t and s.chance(40):
                self.add(o, ["int %s = 77;" % n], "P(%s);" % n)
                break

    def entries(self):
        """arrays gathered from every file by section name"""
        s = self.s
        if MODES[self.mode][1] == ["-Wl,--gc-sections"]:
            return
        self.cls.add("section array")
        self.n += 1
        n = "set_e%d" % self.n
        self.names.add(n)
        for t in range(self.nt):
            for i in range(s.range(1, 4)):
                self.add(t, ["static int %s_%d_%d __attribute__((section(\"%s\"), used)) = %d;" % (n, t, i, n, s.range(1, 999))])
            self.tu[t]["use"].append("(void)&%s_%d_0;" % (n, t))
        t = s.below(self.nt)
        self.add(t, ["extern int __start_%s[], __stop_%s[];" % (n, n)], "{ long c = 0, m = 0; for (int *p = __start_%s; p < __stop_%s; p++) c++, m += *p; P(c); P(m); }" % (n, n))

    def addresses(self):
        """every file sees one address"""
        s = self.s
        if self.nt < 2:
            return
        self.cls.add("one address")
        n = self.name("ad")
        own = s.below(self.nt)
        f = s.chance(50)
        d = ("int %s(void)" if f else "int %s[3]") % n
        for t in range(self.nt):
            if t == own:
                h = ["%s%s" % (d, " { return 4; }" if f else " = { 1, 2, 3 };")]
            else:
                h = ["extern %s;" % d]
            g = "%s_at%d" % (n, t)
            self.names.add(g)
            h.append(s.choice(["void *%s(void) { return (void *)%s; }", "static void *const k%s = (void *)%s; void *%s(void) { return k%s; }"]).replace("k%s", "k" + g) % ((g, n) if True else ())
                     if False else (("void *%s(void) { return (void *)%s; }" % (g, n)) if s.chance(50) else ("static void *const k%s = (void *)%s; void *%s(void) { return k%s; }" % (g, n, g, g))))
            self.add(t, h)
        ats = ["%s_at%d" % (n, t) for t in range(self.nt)]
        self.add(0, ["void *%s(void);" % a for a in ats], "P(%s);" % " + ".join("(%s() == %s())" % (ats[0], a) for a in ats[1:]))

    def build(self):
        s = self.s
        for _ in range(s.range(2, 9)):
            k = s.weighted([(10, self.variable), (9, self.function), (2, self.weak), (3, self.alias), (2, self.ctors), (3, self.statics), (1, self.entries), (2, self.addresses)])
            k()
        texts = []
        for i, tu in enumerate(self.tu):
            # interleave the histories
            seqs = [q for q in tu["decl"] if q]
            out = [HEAD, "typedef struct { int a; char b[3]; long c; } R;"]
            seqs = [list(q) for q in seqs]
            while seqs:
                q = s.choice(seqs)
                out.append(q.pop(0))
                if not q:
                    seqs.remove(q)
            uses = list(tu["use"])
            s.shuffle(uses)
            out.append("void tu%d(void) {" % i)
            for u in uses:
                out.append("  " + u)
            out.append("}")
            if i == 0:
                for j in range(1, self.nt):
                    out.append("void tu%d(void);" % j)
                order = [s.below(self.nt) for _ in range(self.nt + 2)] + list(range(self.nt))
                out.append("int main(void) { %s return 0; }" % " ".join("tu%d();" % j for j in order))
            texts.append("\n".join(out) + "\n")
        return texts


def symbols(path, names):
    """name -> (what, size, tls, visibility, section) for the symbols of interest"""
    r = cc.run(["readelf", "-W", "-s", "-S", path], timeout=30)
    secs, res = {}, {}
    for line in r.out.split("\n"):
        m = SEC.match(line)
        if m:
            secs[m.group(1)] = (m.group(2), m.group(3), m.group(4), int(m.group(5)))
            continue
        m = SYM.match(line)
        if not m or m.group(7) not in names:
            continue
        val, size, typ, bind, vis, ndx, name = m.groups()
        size = int(size, 0)
        if ndx == "UND":
            what = "weak undefined" if bind == "WEAK" else "undefined"
        elif bind == "LOCAL":
            what = "local"
        elif ndx == "COM":
            what = "common"
        else:
            what = "weak definition" if bind == "WEAK" else "definition"
        sec = secs.get(ndx, ("", "", "", 0))
        if what == "local" and name in res:
            continue
        res[name] = {"what": what, "size": size, "type": typ, "vis": vis, "sec": sec[0], "nobits": sec[1] == "NOBITS", "flags": sec[2], "val": int(val, 16)}
    return res


GENERIC = re.compile(r"^(\.text|\.data|\.bss|\.rodata|\.tdata|\.tbss|\.data\.rel.*|\.data\.rel\.ro.*|)$")


def compare(g, s, exempt, fsec):
    out = []
    for n in sorted(set(g) | set(s)):
        a, b = g.get(n), s.get(n)
        wa, wb = (a or {}).get("what", "absent"), (b or {}).get("what", "absent")
        if n in exempt:
            if "definition" in wb and "definition" not in wa:
                out.append("%s is a %s, want none" % (n, wb))
            continue
        if wa in ("absent", "local"):
            if wb not in ("absent", "local"):
                out.append("%s is %s, want %s" % (n, wb, wa))
            continue
        if wa != wb:
            out.append("%s is %s, want %s" % (n, wb, wa))
            continue
        if wa in ("undefined", "weak undefined"):
            continue
        if (a["type"] == "TLS") != (b["type"] == "TLS"):
            out.append("%s has type %s, want %s" % (n, b["type"], a["type"]))
        if a["type"] in ("OBJECT", "TLS") and b["type"] not in ("FUNC",) and a["size"] != b["size"] and b["type"] != "FUNC":
            out.append("%s has size %d, want %d" % (n, b["size"], a["size"]))
        if a["vis"] != b["vis"]:
            out.append("%s has visibility %s, want %s" % (n, b["vis"], a["vis"]))
        if wa == "common":
            continue
        if not GENERIC.match(a["sec"]) and not (a["type"] != "FUNC" and fsec) and a["sec"] != b["sec"]:
            out.append("%s is in section %s, want %s" % (n, b["sec"], a["sec"]))
        if GENERIC.match(a["sec"]) and not fsec and not GENERIC.match(b["sec"]):
            out.append("%s is in section %s, want %s" % (n, b["sec"], a["sec"]))
        if ("X" in a["flags"]) != ("X" in b["flags"]):
            out.append("%s is in section %s (flags %s), want %s" % (n, b["sec"], b["flags"], a["flags"]))
        if "W" in a["flags"] and "W" not in b["flags"]:
            out.append("%s is in the read-only section %s" % (n, b["sec"]))
        if a["nobits"] != b["nobits"] and not a["nobits"] and a["type"] != "FUNC":
            out.append("%s has no contents, want some" % n)
    return out


class C22(Check):
    id = "C22"
    technique = ("property-based testing: random histories of declarations over one to three files; oracle: the symbol table gcc gives each file, and the output "
                 "of the gcc-built program for every mixture of object files")
    level_note = "Random exploration with a fixed seed. Trusts gcc's symbol tables and the system linker."
    rule = "a case is one program of one to three files with a history of declarations; non-trivial if at least three named entities are declared"
    batches = {"quick": 160, "thorough": 4000}
    per = 3

    def one(self, ctx, s, stats=None):
        g = Gen(s)
        texts = g.build()
        pick = [s.below(3) for _ in texts]
        if stats is not None:
            stats.case("\x00".join(texts) + str(g.mode), len(g.names) >= 3, sorted(g.cls), sample="\n/* ---- */\n".join(texts)[:1500])
        return self.judge(ctx, texts, g.mode, pick, sorted(g.names), sorted(g.exempt), stats)

    def judge(self, ctx, texts, mode, pick, names, exempt, stats=None):
        d = ctx.fresh()
        fl, ld = MODES[mode]
        gobj, sobj = [], []
        cmd = "slimcc -std=c23 %s -c" % " ".join(fl)
        files = {"t%d.c" % i: t for i, t in enumerate(texts)}
        extra = {"texts": texts, "mode": mode, "pick": pick, "names": names, "exempt": exempt}
        for i, t in enumerate(texts):
            cc.write(os.path.join(d, "t%d.c" % i), t)
            r = cc.run(["gcc", "-w", "-O0", "-std=gnu2x", "-fno-builtin", *[f for f in fl if f != "-O0"], "-c", "-o", "g%d.o" % i, "t%d.c" % i], cwd=d, timeout=60)
            if r.rc:
                if stats is not None:
                    stats.discarded += 1
                    stats.notes.append("generator: gcc rejects: " + r.err[:300])
                    dump(texts, r.err)
                return None
            gobj.append("g%d.o" % i)
        r = cc.run(["gcc", *ld, "-o", "g.exe", *gobj], cwd=d, timeout=60)
        ref = cc.run(["./g.exe"], cwd=d) if not r.rc else None
        if r.rc or ref.rc:
            if stats is not None:
                stats.discarded += 1
                stats.notes.append("generator: gcc program does not link or run: " + (r.err or repr(ref))[:300])
                dump(texts, r.err)
            return None
        for i in range(len(texts)):
            r = cc.run([ctx.builds["default"], "-std=c23", *fl, "-c", "-o", "s%d.o" % i, "t%d.c" % i], cwd=d, timeout=60)
            if r.rc:
                return Failure("slimcc does not build a valid file: " + (r.err.strip()[-300:] or repr(r)), files, expected="builds", actual=r.err[-2000:], cmd=cmd, extra=extra)
            sobj.append("s%d.o" % i)
        for i in range(len(texts)):
            ns = set(names)
            bad = compare(symbols(os.path.join(d, "g%d.o" % i), ns), symbols(os.path.join(d, "s%d.o" % i), ns), set(exempt), "-fdata-sections" in fl)
            if bad:
                return Failure("symbol table of t%d.o: %s" % (i, "; ".join(bad)[:300]), files, expected="the symbols gcc gives this file", actual="\n".join(bad), cmd=cmd, extra=extra)
        for mix in ([0] * len(texts), pick):
            objs = [(sobj if p != 1 else gobj)[i] for i, p in enumerate(mix)]
            r = cc.run(["gcc" if mix is pick else ctx.builds["default"], *ld, "-o", "m.exe", *objs], cwd=d, timeout=60)
            if r.rc:
                return Failure("does not link (%s): %s" % (" ".join(objs), r.err.strip()[-300:]), files, expected="links", actual=r.err[-2000:], cmd=cmd, extra=extra)
            r = cc.run(["./m.exe"], cwd=d)
            if r.rc or r.out != ref.out:
                a, b = r.out.split("\n"), ref.out.split("\n")
                df = ["got %s want %s" % (x, y) for x, y in zip(a + ["<end>"] * 50, b) if x != y][:3]
                return Failure("wrong behaviour (rc=%s) of %s %s: %s" % (r.rc, " ".join(objs), " ".join(fl), "; ".join(df)), files, expected=ref.out[:3000], actual=r.out[:3000], cmd=cmd, extra=extra)
        return None

    def run_batch(self, ctx, idx, src, stats):
        for _ in range(self.per):
            s = Src(src.bits(62))
            f = self.one(ctx, s, stats)
            if f:
                f.choices = s.log
                stats.failures.append(f)

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        f = self.one(ctx, s)
        if f:
            f.choices = s.log
        return f

    def replay_record(self, ctx, rec):
        e = rec.get("extra") or {}
        if "texts" not in e:
            return self.recheck(ctx, rec["choices"])
        return self.judge(ctx, e["texts"], e["mode"], e["pick"], e["names"], e["exempt"])


def dump(texts, err):
    p = os.environ.get("VERIF_DUMPBAD")
    if p:
        cc.write(os.path.join(p, "c22_%d_%d.txt" % (os.getpid(), len(os.listdir(p)))), err + "\n====\n" + "\n====\n".join(texts))


CHECK = C22()
