"""C26: source positions: __LINE__ and __FILE__, -E line markers, -g line table, warnings, after any layout of the source."""
import os, re
from lib import cc
from lib.engine import Check, Failure, Src

DIRS = ["", "d/", "d/e/"]
FNAMES = ["foo.y", "gen/x.tab.c", "a b.c", "m.c", "q\\\\x.c", "z\\\"q.c"]


class Gen:
    """The source is a list of pieces per file. A piece is (text, effect); \\x01N\\x02 in the text marks probe N. Effects: ("line", n, file), ("inc", name)."""
    def __init__(self, s, deep):
        self.s, self.n, self.u, self.deep = s, 0, 0, deep
        self.files, self.crlf = {}, {}
        self.kinds = {}         # probe -> "p" call, "l" position macros, "w" #warning
        self.exact = {}         # probe -> False: stands in a statement of several lines
        self.cls = set()
        self.nfrag = 0
        self.counts = {}

    def uniq(self):
        self.u += 1
        return self.u

    def probe(self, kinds="ppl", exact=True):
        self.n += 1
        self.kinds[self.n] = self.s.choice(kinds)
        self.exact[self.n] = exact
        return "\x01%d\x02" % self.n

    def gap(self):
        """white space that may span lines: comments, joined lines"""
        s = self.s
        return s.weighted([(60, ""), (10, " "), (6, "/* c */"), (6, "/* c\n c\n*/"), (6, "\\\n"), (4, "\\\n\\\n "), (3, "/*\\\n*/"), (3, "/\\\n* c */"), (2, "\f"), (2, "\v ")])

    # pieces that need no function around them
    def neutral(self):
        s = self.s
        u = self.uniq()
        k = s.below(17)
        if k == 0:
            return "\n" * s.range(1, 12), None
        if k == 1:
            return s.choice(["/* one */\n", "/* two\nlines */\n", "/*\n\n\n*/\n", "/* \\\n x \\\n*/\n", "/* // */\n"]), None
        if k == 2:
            return s.choice(["// c\n", "// c \\\nstill c\n", "// c \\\n\\\n\\\nc\n", "// /*\n"]), None
        if k == 3:
            return s.choice(["#define O_%d 1\n", "#define O_%d a \\\n b \\\n\n", "#define F_%d(a, \\\n b) a \\\n b\n", "#define O_%d /* c\n c */ 2\n", "#define O_%d \\\n 1 \\\n /* \n*/ + 2\n"]) % u, None
        if k == 4:
            self.cls.add("skipped group")
            return s.choice(["#if 0\nx ' y\n\"open\n/* c\n#endif */\n#endif\n", "#if 0\n#line 77 \"no.c\"\n#include \"none.h\"\n#endif\n", "#ifdef NO_%d\n a \\\n b\n#if 1\n#else\n#endif\n#elif 1\n#endif\n" % u,
                             "#if 1 \\\n && 1\n#else\n\n\n#error no\n#endif\n", "#ifndef NO_%d\n#else\n\n\\\n#endif\n" % u, "#if 0 \\\n\n\n#elif 0 /*\n*/\n\n#endif\n"]), None
        if k == 5:
            return s.choice(["#pragma foo bar\n", "#pragma foo \\\n bar\n", "#\n", "# /* c\n c */\n", "#pragma foo /*\n*/ x\n", "#undef U_%d\n" % u]), None
        if k == 6:
            return s.choice(["\\\n\n", "\\\n\\\n\\\n\n", " \\\n \n", "/**/\\\n\n"]), None
        if k < 10:
            return self.line()
        if k < 13:
            return self.include()
        if k == 13:
            self.cls.add("warning")
            return "#warning %s\n" % self.probe("w"), None
        if k == 14:
            return s.choice(["#define S_%d(...) #__VA_ARGS__\n", "#define L_%d(x) x __LINE__\n", "_Static_assert(1, \"a\" /*\n*/ \"b\");\n" if self.top else ";\n", "typedef char t_%d[ /*\n*/ 3];\n" if not "%" in "" else ""]).replace("%d", str(u)), None
        if k == 15:
            return s.choice(["extern int e_%d, \\\n f_%d;\n", "int pr_%d(\nint a,\n\nint b);\n", "extern int en_%d[\n 3\n];\n"]).replace("%d", str(u)), None
        return s.choice(["#if 1\n\n#endif\n", "#define E_%d\nE_%d\nE_%d E_%d\n", "#define E_%d(x)\nE_%d(a\nb,\n)\n" if 0 else "#define E_%d(x)\nE_%d(\na\n)\n"]).replace("%d", str(u)), None

    def line(self):
        s = self.s
        self.cls.add("#line")
        n = s.choice([1, 2, 7, 50, 100, 999, 32767, 2000000]) + s.below(3)
        f = s.choice(FNAMES) if s.chance(55) else None
        k = s.below(8)
        if k == 0:
            m = "LM_%d" % self.uniq()
            return "#define %s %d%s\n#line %s\n" % (m, n, " \"%s\"" % f if f else "", m), ("line", n, f)
        sp = s.choice(["#line", "# line", "#line", " #line", "#", "# "]) if k > 1 else "#line"
        t = "%s %d%s" % (sp, n, " \"%s\"" % f if f else "")
        if k == 1:
            t = t.replace(" ", " \\\n ", 1)
        elif k == 2:
            t = t.replace(" ", " /* c */ ", 1)
        elif k == 3:
            t += " // c"
        elif k == 4 and f and sp.strip() == "#":
            t += s.choice(["", " 1", " 2", " 3"]) if 0 else ""
        return t + "\n", ("line", n, f)

    def include(self):
        s = self.s
        if self.depth >= self.deep:
            return "\n", None
        self.cls.add("include")
        top = self.top
        old = [f for f, (t, l) in self.frags.items() if t == top and l > self.depth]
        if old and s.chance(35):
            name = s.choice(old)
            self.cls.add("repeated include")
        else:
            self.nfrag += 1
            name = "%sh%d.h" % (s.choice(DIRS), self.nfrag)
            self.depth += 1
            lvl = self.depth
            pcs = [self.piece(top) for _ in range(s.range(1, 5))]
            if s.chance(12):
                t, e = pcs[-1]
                if t.endswith("\n") and not e and not t.endswith("\\\n\n"):
                    pcs[-1] = (t[:-1], e)      # no newline at the end of the file
            if s.chance(8):
                pcs.insert(0, ("\ufeff", None))
            self.depth -= 1
            self.files[name] = pcs
            self.crlf[name] = s.chance(8)
            self.frags[name] = (top, lvl)
        k = s.below(6)
        if k == 0:
            return "#define H_%d \"%s\"\n#include H_%d\n" % (self.u, name, self.uniq() - 1), ("inc", name)
        if k == 1:
            return "#include <%s>\n" % name, ("inc<", name)
        if k == 2:
            return "#include \\\n \"%s\" /* c\n */\n" % name, ("inc", name)
        return "#include \"%s\"\n" % name, ("inc", name)

    def expr(self):
        s = self.s
        return s.choice(["1", "a + 2", "f_(a, 3)", "(a = 4)", "a ? 1 : f_(2, a)", "(int)sizeof(int)"])

    # a statement
    def stmt(self):
        s = self.s
        k = s.below(22)
        u = self.uniq()
        if k < 6:
            return "%s%s\n" % (self.gap(), self.probe()), None
        if k == 6:
            return "%s %s %s\n" % (self.probe(), self.gap(), self.probe()), None
        if k == 7:
            return "%s /* c\n c */ %s \\\n%s // d\n" % (self.probe(), self.probe(), self.probe()), None
        if k == 8:
            self.cls.add("macro")
            return "#define PM_%d(x) x x\nPM_%d(%s)\n%s\n" % (u, u, self.probe("p"), self.probe()), None
        if k == 9:
            self.cls.add("macro")
            return "#define PO_%d %s\n\nPO_%d\n%s\n" % (u, self.mac("p"), u, self.probe()), None
        if k == 10 and s.chance(50):
            self.cls.add("macro call over several lines")
            return "ID_(\n%s,\n%s)\n%s\n" % (self.probe("2", False), s.choice(["", self.probe("2", False) + "\n", "\na;"]), self.probe()), None
        if k == 10:     # a macro call over several lines
            self.cls.add("macro call over several lines")
            return "ID_(\na = 1; %s,\n\n%s)\n%s\n" % (s.choice(["", "/*\n*/", "\n"]), s.choice(["", "a;\n", "f_(1,\n2);"]), self.probe()), None
        if k == 11:
            return "if (%s)\n{\n%s\n}\nelse\n%s\n" % (s.choice(["a", "a > 2", "f_(a, 3)", "f_(1,\n 2)", "(a = f_(3, a))"]), self.probe(), self.probe()), None
        if k == 12:
            return "for (int i = 0;\ni < 2;\ni++)\n%s\n" % self.probe(), None
        if k == 13:     # a statement over several lines
            return "a = f_(%s,\n%s)%s\n;\n" % (self.expr(), self.call(), self.gap()), None
        if k == 14:
            return "s_ = \"a\\\nb\" /* \n */ \"c\"\n\"d\";\n%s\n" % self.probe(), None
        if k == 15:
            return "%s\\\n%s\n" % (self.probe(), self.probe()), None
        if k == 16:
            return "_Pragma(\"foo\")\n%s\n" % self.probe(), None
        if k == 17:
            return "{\nint v_%d = %s;\n(void)v_%d; %s }\n" % (u, self.expr(), u, self.probe()), None
        if k == 18:
            self.cls.add("macro")
            return "#define ST_%d(x) #x\ns_ = ST_%d(a\n\nb\n); \n%s\n" % (u, u, self.probe()), None
        if k == 19:
            return "switch (a) {\ncase 1:\n%s break;\ndefault: %s\n}\n" % (self.probe(), self.probe()), None
        if k == 20:
            return "ID_(%s, %s) %s\n" % (self.probe("p"), "", self.probe()), None
        return "(void)sizeof(int\n[3]); %s\n" % self.probe(), None

    def mac(self, kinds):
        p = self.probe(kinds)
        n = int(p[1:-1])
        self.kinds[n] = "m"         # in the body of an object-like macro: reported where the macro is used, two lines below
        return p

    def call(self):
        """a call inside an expression of several lines"""
        p = self.probe("c", False)
        return p

    def function(self):
        s = self.s
        u = self.uniq()
        h = s.choice(["int %f(int a)\n{\n", "int\n%f(int a) {\n", "static __attribute__((used)) int %f(int a)\n{\n", "int %f(a)\nint a;\n{\n", "int %f(int a) { %s\n", "int %f(\nint a) /* c\n */ {\n"])
        h = h.replace("%f", self.probe("f", False))
        if "%s" in h:
            h = h.replace("%s", self.probe())
        out = [(h, None)]
        self.top = False
        for _ in range(s.range(1, 7)):
            out.append(self.piece(False))
        self.top = True
        t = "return 0;\n}" + s.choice(["\n", "\n", " int %f(int a) { %s return 1; } \n", " int %f(int a) { return f_(a, 2); } int %f(int a) { %s return 1; } \n"])
        while "%f" in t:
            t = t.replace("%f", self.probe("f", False), 1)
        if "%s" in t:
            t = t.replace("%s", self.probe())
        out.append((t, None))
        return out

    def piece(self, top):
        if top or self.s.chance(45):
            old, self.top = self.top, top
            r = self.neutral()
            self.top = old
            return r
        return self.stmt()

    def build(self):
        s = self.s
        self.depth, self.top, self.frags = 0, True, {}
        main = [("%PRE%\n", None)]
        for _ in range(s.range(1, 4)):
            while s.chance(50):
                main.append(self.piece(True))
            main += self.function()
        while s.chance(30):
            main.append(self.piece(True))
        self.files["m.c"] = main
        self.crlf["m.c"] = s.chance(8)
        pre = "#define ID_(x, y) x y\nextern const char *s_; int f_(int, int);"
        for n, k in sorted(self.kinds.items()):
            pre += " int p_%d(void); int l_%d(int, const char *);" % (n, n)
        main[0] = (pre + "\n", None)
        self.top = True

    def fill(self, text):
        def one(m):
            n = int(m.group(1))
            k = self.kinds[n]
            return {"2": "p_%d();", "p": "p_%d();", "m": "p_%d();", "l": "l_%d(__LINE__, __FILE__);", "c": "p_%d()", "w": "W_%d_", "f": "fn_%d"}[k] % n
        return re.sub("\x01(\\d+)\x02", one, text)

    def texts(self):
        out = {}
        for f, pcs in self.files.items():
            t = "".join(self.fill(p[0]) for p in pcs)
            out[f] = t.replace("\n", "\r\n") if self.crlf[f] else t
        return out

    # ---- what is to be reported, by construction: list of (probe, file, first line, last line), in order
    def expect(self):
        out, warns = [], []

        def walk(f, shown, depth):
            ln, delta, name = 1, 0, shown
            for text, eff in self.files[f]:
                probes = [(m.start(), int(m.group(1))) for m in re.finditer("\x01(\\d+)\x02", text)]
                for pos, n in probes:
                    l = ln + text.count("\n", 0, pos)
                    k = self.kinds[n]
                    if k == "w":
                        warns.append((n, shown, l))
                    elif k == "m":
                        l += 2
                        out.append((n, name, l + delta, l + delta, k))
                    elif not self.exact[n]:
                        out.append((n, name, ln + delta, ln + delta + text.count("\n"), k))
                    else:
                        times = 2 if "PM_" in text and text[pos - 1] == "(" else 1
                        out.extend([(n, name, l + delta, l + delta, k)] * times)
                ln += text.count("\n")
                if eff and eff[0] == "line":
                    delta = eff[1] - ln
                    if eff[2] is not None:
                        name = re.sub(r"\\(.)", r"\1", eff[2])
                elif eff:
                    walk(eff[1], eff[1], depth + 1)
        walk("m.c", "m.c", 0)
        return out, warns


def norm(f):
    return os.path.normpath(f)


def unesc(s):
    return re.sub(r"\\(.)", r"\1", s)


def read_e(text):
    """the probes of preprocessed text with the positions that its line markers give, and the values of l probes"""
    f, ln, out, where, at = "?", 0, [], [], 0
    for line in text.split("\n"):
        m = re.match(r'#\s*(?:line\s+)?(\d+)\s+"((?:\\.|[^"\\])*)"', line)
        if m:
            f, ln = unesc(m.group(2)), int(m.group(1)) - 1
        where.append((at, f, ln))
        at += len(line) + 1
        ln += 1
    i = 0
    for m in re.finditer(r'\b([pl])_(\d+)\s*\(\s*(?:(\d+)\s*,\s*"((?:\\.|[^"\\])*)"\s*)?\)', text):
        while i + 1 < len(where) and where[i + 1][0] <= m.start():
            i += 1
        out.append((int(m.group(2)), norm(where[i][1]), where[i][2], (int(m.group(3)), norm(unesc(m.group(4)))) if m.group(3) else None))
    return out


def read_g(d, o):
    """the calls in an object file, as (probe, position by the line table)"""
    r = cc.run(["objdump", "-d", "-r", "--no-show-raw-insn", o], cwd=d, timeout=30)
    sec, addr, calls = None, None, {}
    for l in r.out.split("\n"):
        m = re.match(r"Disassembly of section (\S+):", l)
        if m:
            sec = m.group(1)
            continue
        m = re.match(r"\s+[0-9a-f]+: R_X86_64_(?:PLT32|PC32|GOTPCRELX?|REX_GOTPCRELX)\s+([pl])_(\d+)", l)
        if m:
            calls.setdefault(sec, []).append((int(m.group(2)), addr))
            continue
        m = re.match(r"([0-9a-f]+) <fn_(\d+)>:", l)
        if m:
            calls.setdefault(sec, []).append((int(m.group(2)), m.group(1)))
            continue
        m = re.match(r"\s+([0-9a-f]+):\t", l)
        if m:
            addr = m.group(1)
    out, cwd = [], os.path.realpath(d)
    for sec, cs in calls.items():
        r = cc.run(["addr2line", "-e", o, "-j", sec, *["0x" + a for n, a in cs]], cwd=d, timeout=30)
        ls = r.out.split("\n")
        for (n, a), l in zip(cs, ls):
            m = re.match(r"(.+):(\d+|\?)(?: \(discriminator \d+\))?$", l)
            cur = (norm(m.group(1)), int(m.group(2)) if m.group(2) != "?" else 0) if m else None
            if cur and cur[0].startswith(cwd + "/"):
                cur = (cur[0][len(cwd) + 1:], cur[1])
            out.append((n, cur))
    return out


class C26(Check):
    id = "C26"
    technique = ("property-based testing: sources of generated layout (includes, joined lines, comments, #line, macro calls over several lines) with numbered probes; the positions in -E line markers, "
                 "__LINE__/__FILE__, #warning and the -g line table compared with those known by construction, which gcc's output must confirm")
    level_note = "Random exploration with a fixed seed: no absence claim."
    rule = "a case is one program with its headers; non-trivial if it holds at least one of #line, include, skipped group, macro call over several lines, and a probe after it"
    batches = {"quick": 160, "thorough": 5000}
    per = 8
    modes = ["e", "g", "eg", "w"]
    gflags = []

    def case(self, s):
        g = Gen(s, s.choice([0, 1, 2, 3]))
        g.build()
        g.gflags = s.weighted([(50, []), (25, ["-O0"]), (25, ["-ffunction-sections"])])
        return g

    def put(self, d, files):
        for n, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            with open(os.path.join(d, n), "w", newline="", encoding="utf-8") as fh:
                fh.write(t)

    def observe(self, d, comp, flags, how):
        if how in ("g", "eg"):
            flags = [*flags, *self.gflags]
        """(error, probes seen)"""
        if how == "e":
            r = cc.run([comp, "-w", *flags, "-I.", "-E", "m.c"], cwd=d, timeout=30)
            if r.rc:
                return "-E fails: " + r.err[-300:], None
            return None, read_e(r.out)
        if how == "w":
            r = cc.run([comp, *flags, "-I.", "-E", "m.c", "-o", "/dev/null"], cwd=d, timeout=30)
            if r.rc:
                return "-E fails: " + r.err[-300:], None
            return None, r.err
        if how == "eg":
            r = cc.run([comp, "-w", *flags, "-I.", "-E", "m.c", "-o", "x.i"], cwd=d, timeout=30)
            if r.rc == 0:
                os.rename(os.path.join(d, "x.i"), os.path.join(d, "y.c"))
                r = cc.run([comp, "-w", *flags, "-g", "-c", "y.c", "-o", "x.o"], cwd=d, timeout=30)
        else:
            r = cc.run([comp, "-w", *flags, "-I.", "-g", "-c", "m.c", "-o", "x.o"], cwd=d, timeout=30)
        if r.rc:
            return "-g fails: " + r.err[-300:], None
        return None, read_g(d, "x.o")

    def compare(self, exp, got, how, ref=False):
        if how == "e" and ref:      # markers of the other compilers do not tell joined lines apart
            exp0, exp = exp, [(n, f, a - 12, b + 12, k) for n, f, a, b, k in exp]
        else:
            exp0 = exp
        if how == "e":
            exp, exp0 = [x for x in exp if x[4] != "f"], [x for x in exp0 if x[4] != "f"]
            g1 = [(n, f, l) for n, f, l, v in got]
            e1 = [(n, norm(f), a, b) for n, f, a, b, k in exp]
            if [x[0] for x in g1] != [x[0] for x in e1]:
                return "probes differ: %s, want %s" % ([x[0] for x in g1][:40], [x[0] for x in e1][:40])
            for (n, f, l), (_, wf, a, b) in zip(g1, e1):
                if f != wf or not a <= l <= b:
                    return "-E puts probe %d at %s:%d, it is at %s:%d" % (n, f, l, wf, a)
            for (n, f, l, v), (_, wf, a, b, k) in zip(got, exp0):
                if k == "l" and (v is None or v[1] != norm(wf) or not a <= v[0] <= b):
                    return "__LINE__, __FILE__ of probe %d are %s, want %s:%d" % (n, v, wf, a)
            return None
        g1, e1 = {}, {}
        for n, p in got:
            g1.setdefault(n, []).append(p)
        for n, f, a, b, k in exp:
            e1.setdefault(n, []).append((norm(f), a, b))
        for n in e1:
            gl, el = sorted(g1.get(n, []), key=str), sorted(e1[n])
            left = list(el)
            for p in gl:
                m = [x for x in left if p and (ref or x[0] == p[0]) and x[1] <= p[1] <= x[2]]
                if not m:
                    return "-g puts probe %d at %s, it is at %s" % (n, "%s:%d" % p if p else None, ["%s:%d" % x[:2] for x in el])
                left.remove(m[0])
            if left:
                return "-g: call of probe %d missing at %s" % (n, left)
        return None

    def compare_w(self, warns, err):
        pos = {}
        last = None
        for l in err.split("\n"):
            m = re.match(r"(.+?):(\d+):", l)
            if m:
                last = (norm(m.group(1)), int(m.group(2)))
            m = re.search(r"W_(\d+)_", l)
            if m and last:
                pos.setdefault(int(m.group(1)), []).append(last)
        for n in {w[0] for w in warns}:
            want = sorted((norm(f), l) for m, f, l in warns if m == n)
            if sorted(set(pos.get(n, []))) != sorted(set(want)):
                return "#warning of probe %d is reported at %s, it is at %s" % (n, pos.get(n), want)
        return None

    def one(self, ctx, d, g, how, comp=None):
        exp, warns = g["exp"], g["warns"]
        self.gflags = g["gflags"]
        comp_ = comp or ctx.builds["default"]
        err, got = self.observe(d, comp_, ["-std=gnu2x"] if comp else [], how)
        if err:
            return err
        if how == "w":
            return self.compare_w(warns, got) if not comp else None
        return self.compare(exp, got, how, bool(comp))

    def check_all(self, ctx, d, c):
        for how in self.modes:
            what = self.one(ctx, d, c, how)
            if what:
                return how, what
        return None, None

    def confirmed(self, ctx, d, c, how):
        """does gcc report the positions that are known by construction?"""
        return not self.one(ctx, d, c, "e" if how in ("e", "w") else "g", "gcc") and not self.one(ctx, d, c, "e", "clang")

    def judge(self, ctx, c):
        d = ctx.fresh()
        self.put(d, c["files"])
        how, what = self.check_all(ctx, d, c)
        if not what:
            return None
        if not self.confirmed(ctx, d, c, how):
            return None
        return Failure(what, c["files"], expected=[list(x) for x in c["exp"]], actual=what, cmd="slimcc -I. %s m.c" % {"e": "-E", "w": "-E", "g": "-g -c", "eg": "-E, then -g -c"}[how],
                       extra={"exp": [list(x) for x in c["exp"]], "warns": [list(x) for x in c["warns"]], "gflags": c["gflags"], "how": how})

    def run_batch(self, ctx, idx, src, stats):
        for _ in range(self.per):
            s = Src(src.bits(62))
            g = self.case(s)
            exp, warns = g.expect()
            c = {"files": g.texts(), "exp": exp, "warns": warns, "gflags": g.gflags}
            d = ctx.fresh()
            self.put(d, c["files"])
            how, what = self.check_all(ctx, d, c)
            stats.case(repr(c["files"]), bool(exp) and bool(g.cls), sorted(g.cls) + ["%d probes" % (len(exp) // 10 * 10)])
            if what:
                f = self.judge(ctx, c)
                if f:
                    f.choices = s.log
                    stats.failures.append(f)
                else:
                    stats.discarded += 1
                    stats.classes["unconfirmed"] += 1
                    if os.environ.get("VERIF_DUMPBAD"):
                        self.put(d, c["files"])
                        open(os.path.join(os.environ["VERIF_DUMPBAD"], "unconf.txt"), "a").write("%s\nGCC %s %s\nCLANG %s\n%s\n----------\n" % (what, self.one(ctx, d, c, "e", "gcc"), self.one(ctx, d, c, "g", "gcc"), self.one(ctx, d, c, "e", "clang"), "\n".join("== %s\n%s" % x for x in c["files"].items())))

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        g = self.case(s)
        exp, warns = g.expect()
        f = self.judge(ctx, {"files": g.texts(), "exp": exp, "warns": warns, "gflags": g.gflags})
        if f:
            f.choices = s.log
        return f

    def replay_record(self, ctx, rec):
        if not rec.get("files") or not rec.get("extra"):
            return self.recheck(ctx, rec["choices"])
        return self.judge(ctx, {"files": rec["files"], "exp": [tuple(x) for x in rec["extra"]["exp"]], "warns": [tuple(x) for x in rec["extra"]["warns"]], "gflags": rec["extra"].get("gflags", [])})


CHECK = C26()
