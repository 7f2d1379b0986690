"""C27: #embed. Generated resources, parameters and places, against the bytes themselves."""
import os, re
from lib import cc
from lib.engine import Check, Failure, Src

NAMES = ["r%d", "r%d.bin", "sub/r%d.dat", "r %d.bin", "r%d.c", "sub/deep/r%d", "r'%d", "ré%d", "r#%d", "r\\%d", "r//%d".replace("//", "_-"), "r%d.h"]


class Gen:
    def __init__(self, s):
        self.s = s
        self.files = {}         # path -> bytes
        self.cls = set()
        self.macros = []
        self.n = 0

    def content(self):
        s = self.s
        k = s.below(10)
        if k == 0:
            return b""
        if k < 3:
            return bytes([s.choice([0, 10, 13, 26, 34, 39, 44, 92, 127, 128, 255, 65])])
        if k < 7:
            return bytes(s.choice([0, 1, 9, 10, 13, 26, 34, 35, 39, 41, 44, 47, 92, 127, 128, 200, 255, 48 + s.below(10)]) for _ in range(s.range(2, 12)))
        if k == 7:
            return s.choice([b"#define X 1\n#error no\n", b"1, 2, 3\n", b"\xef\xbb\xbfabc", b")\n#endif\n", b"\\\n\\\n", b"??/\n", b"\r\n\r\n", b"/* \"", bytes(range(256))])
        if k == 8:
            return bytes((i * 7 + 3) & 255 for i in range(s.choice([4095, 4096, 4097, 8192, 65536])))
        return bytes(s.below(256) for _ in range(s.range(13, 300)))

    def resource(self):
        s = self.s
        if self.files and s.chance(40):
            return s.choice(sorted(self.files))
        n = s.choice(NAMES) % len(self.files)
        self.files[n] = self.content()
        return n

    def intexpr(self, v):
        """a #if expression of value v"""
        s = self.s
        k = s.below(9)
        if k < 3:
            return str(v)
        if k == 3:
            return "0x%x" % v
        if k == 4:
            return "(%d) + %d" % (v - v // 2, v // 2)
        if k == 5:
            m = "N%d" % len(self.macros)
            self.macros.append("#define %s %d" % (m, v))
            self.cls.add("macro in limit")
            return m
        if k == 6:
            m = "F%d" % len(self.macros)
            self.macros.append("#define %s(a, b) ((a) * %d + (b))" % (m, v))
            self.cls.add("macro in limit")
            return "%s(1, 0)" % m
        if k == 7:
            return "1 ? %du : 0" % v
        return "(%d << 1 | %d)" % (v >> 1, v & 1)

    def where(self, n, at):
        """the text naming the file: (text, search class)"""
        s = self.s
        k = s.below(10)
        rel = os.path.relpath(n, at) if at else n
        if rel.startswith("..") or s.chance(25):
            d, b = os.path.split(n)
            # through -I: every directory of resources is a search directory
            form = "<%s>" % n if "'" not in n else "\"%s\"" % n
            if at and not form.startswith("<"):
                form = "\"%s\"" % n
            self.cls.add("found through -I")
        else:
            form = "\"%s\"" % rel
        if k < 2 and " " not in n and "\\" not in n and "'" not in n and "#" not in n and "_-" not in n:
            m = "R%d" % len(self.macros)
            self.macros.append("#define %s %s" % (m, form))
            self.cls.add("macro as file name")
            return m
        return form

    def embed(self, must=None, at=""):
        """(directive without its first word, values) ; must: at least that many values"""
        s = self.s
        n = self.resource()
        b = self.files[n]
        if must and len(b) < must:
            n = "m%d" % len(self.files)
            self.files[n] = b = bytes(1 + s.below(255) for _ in range(must))
        big = len(b) > 600
        ps, lim = [], None
        if s.chance(45) or (big and s.chance(60)):
            lim = s.choice([0, 1, 2, len(b), len(b) + 1, max(0, len(b) - 1), s.below(len(b) + 2), 1 << 33, (1 << 31) - 1, 1 << 31, 1 << 32])
            if must:
                lim = max(lim, must)
            ps.append("limit(%s)" % self.intexpr(lim))
            self.cls.add("limit")
        v = list(b if lim is None else b[:lim])
        pre = suf = emp = None

        def seq(k):
            k = s.choice([0, 1, 1, 2, 5])
            vals = [s.below(300) for _ in range(k)]
            txt = []
            for x in vals:
                w = s.below(7)
                txt.append(str(x) if w < 3 else "(%d)" % x if w == 3 else "0x%x" % x if w == 4 else "(%d, %d)" % (x + 1, x) if w == 5 else "/* ) */ %d" % x)
            return vals, txt
        res = v
        if s.chance(35):
            vals, txt = seq(0)
            ps.append("prefix(%s)" % "".join(t + ", " for t in txt))
            if v:
                res = vals + res
            self.cls.add("prefix")
        if s.chance(35):
            vals, txt = seq(0)
            ps.append("suffix(%s)" % "".join(", " + t for t in txt))
            if v:
                res = res + vals
            self.cls.add("suffix")
        if s.chance(35):
            vals, txt = seq(0)
            ps.append("if_empty(%s)" % ", ".join(txt))
            if not v:
                res = vals
            self.cls.add("if_empty")
        self.cls.add("empty" if not v else "some bytes" if len(v) < 600 else "many bytes")
        ps = s.shuffle(ps)
        if s.chance(15):
            ps = [re.sub(r"^(\w+)", r"__\1__", p) for p in ps]
            if ps:
                self.cls.add("__name__ spelling")
        sp = s.choice([" ", " ", "  ", "\t", " /* c */ ", " \\\n "])
        return self.where(n, at) + "".join(sp + (p.replace("(", " (", 1) if s.chance(15) else p) for p in ps), res

    def directive(self, d):
        return self.s.choice(["#embed ", "#embed ", "# embed ", "  #embed\t", "#\\\nembed ", "/* x */ # /* y */ embed "]) + d + self.s.choice(["", "", " // c", " /* c */"])

    def has(self, at=""):
        """(#if text, expected)"""
        s = self.s
        k = s.below(8)
        if k == 0:
            self.cls.add("not found")
            return "__has_embed(%s%s)" % (s.choice(["\"none.bin\"", "<none>", "\"sub\"", "\"sub/none\"", "\"/none/x\""]), s.choice(["", " limit(0)", " if_empty(1)"])), 0
        n = self.resource()
        b = self.files[n]
        if k == 1:
            self.cls.add("unknown parameter")
            return "__has_embed(%s %s)" % (self.where(n, at), s.choice(["gnu::none(1)", "nonesuch(2)", "clang::x", "limit(1) other(3)", "vendor::p(a (b) c)"])), 0
        ps, lim = [], None
        if s.chance(50):
            lim = s.choice([0, 0, 1, 5, 1 << 40])
            ps.append("limit(%s)" % self.intexpr(lim))
        for p in ("prefix(1, 2,)", "suffix(, (3))", "if_empty(9)", "prefix()", "if_empty(())"):
            if s.chance(15) and not any(x.split("(")[0] == p.split("(")[0] for x in ps):
                ps.append(p)
        self.cls.add("__has_embed")
        return "__has_embed(%s)" % " ".join([self.where(n, at)] + s.shuffle(ps)), 2 if not b or lim == 0 else 1

    def item(self, at=""):
        """(file-scope text, statements, expected numbers)"""
        s = self.s
        self.n += 1
        a = "a%d" % self.n
        k = s.below(13)
        if k < 4:
            d, v = self.embed(at=at)
            t = s.choice(["unsigned char", "unsigned char", "int", "short", "long", "double"])
            mask = 255 if "char" in t else -1
            if not v:
                # an initializer with something around it
                return "static %s %s[] = { 7%s\n%s\n};" % (t, a, "" if True else ",", self.directive(d)), "A(%s);" % a, [1, 7]
            st = s.choice(["static ", "const ", "extern_ "]).replace("extern_ ", "")
            return "%s%s %s[] = {\n%s\n%s};" % (st, t, a, self.directive(d), s.choice(["", ","])), "A(%s);" % a, [len(v)] + [x & mask if mask == 255 else x for x in v]
        if k == 4:
            # between other values
            d, v = self.embed(must=1, at=at)
            if not v:
                v = []
            return "static int %s[] = { 1, 2,\n%s\n, 3 };" % (a, self.directive(d)), "A(%s);" % a, [3 + len(v), 1, 2] + v + [3]
        if k == 5:
            # the comma comes with the prefix or the suffix: nothing when empty
            n = self.resource()
            b = self.files[n]
            lim = s.choice([None, 0, 1, 3])
            l = "" if lim is None else " limit(%d)" % lim
            v = list(b if lim is None else b[:lim])
            self.cls.add("comma in prefix or suffix")
            if s.chance(50):
                return "static int %s[] = { 9\n#embed %s%s prefix(,)\n, 8 };" % (a, self.where(n, at), l), "A(%s);" % a, [2 + len(v), 9] + v + [8]
            return "static int %s[] = { 9,\n#embed %s%s suffix(,)\n8 };" % (a, self.where(n, at), l), "A(%s);" % a, [2 + len(v), 9] + v + [8]
        if k == 6:
            d, v = self.embed(must=1, at=at)
            v = v[:1000] if len(v) < 1000 else v
            if len(v) > 500 or not v:
                return "", "", []
            self.cls.add("arguments")
            return "", "V(%d,\n%s\n);" % (len(v), self.directive(d)), v
        if k == 7:
            d, v = self.embed(must=1, at=at)
            if not v:
                return "", "", []
            self.cls.add("local array")
            return "", "{ unsigned char %s[] = {\n%s\n}; A(%s); }" % (a, self.directive(d), a), [len(v)] + [x & 255 for x in v]
        if k == 8:
            d, v = self.embed(must=1, at=at)
            if not v or len(v) > 3000:
                return "", "", []
            self.cls.add("struct")
            return "static struct { char x; unsigned char b[%d]; int y; } %s = { 4, {\n%s\n}, 5 };" % (len(v) + 2, a, self.directive(d)), "A(%s.b); P(%s.x); P(%s.y);" % (a, a, a), [len(v) + 2] + [x & 255 for x in v] + [0, 0, 4, 5]
        if k == 9:
            d, v = self.embed(must=1, at=at)
            if not v or len(v) > 2000:
                return "", "", []
            # the bytes are integer constants of type int; an expression of comma operators
            self.cls.add("expression")
            return "", "P((\n%s\n)); P(sizeof(\n%s\n) == sizeof(int));" % (self.directive(d), self.directive(d)), [v[-1], 1]
        if k == 10:
            h, e = self.has(at)
            return "#if %s == %d\nstatic int %s = %d;\n#elif %s\nstatic int %s = -1;\n#else\nstatic int %s = -2;\n#endif" % (h, e, a, e, h, a, a), "P(%s);" % a, [e]
        if k == 11:
            h, e = self.has(at)
            if self.s.chance(40):
                return "static int %s = (%s) + __STDC_EMBED_NOT_FOUND__;".replace("(%s)", "(%s)") % (a, {0: "__STDC_EMBED_NOT_FOUND__", 1: "__STDC_EMBED_FOUND__", 2: "__STDC_EMBED_EMPTY__"}[e]), "P(%s);" % a, [e]
            return "static int %s =\n#if %s\n1\n#else\n0\n#endif\n;" % (a, h), "P(%s);" % a, [1 if e else 0]
        # in a group that is not taken, nothing happens
        self.cls.add("skipped group")
        return "static int %s[] = {\n#if 0\n#embed \"no such file\" limit(\n#embed\n#else\n5\n#endif\n};" % a, "A(%s);" % a, [1, 5]

    def build(self):
        s = self.s
        items = [self.item() for _ in range(s.range(1, 7))]
        if s.chance(40):
            # a header that lies elsewhere: relative to its own directory
            at = s.choice(["sub", "hdr"])
            h, e = [], []
            for _ in range(s.range(1, 3)):
                t, st, ex = self.item(at)
                h.append((t, st))
                e += ex
            self.cls.add("relative to the header")
            self.header = (at + "/inc.h", "\n".join(t for t, st in h) + "\nstatic void from_header(void) {\n" + "\n".join(st for t, st in h) + "\n}\n")
            items.append(("#include \"%s\"" % self.header[0], "from_header();", e))
        else:
            self.header = None
        text = "#include <stdarg.h>\nint printf(const char *, ...);\n"
        text += "#define P(x) printf(\"%ld\\n\", (long)(x))\n#define A(a) do { P(sizeof(a) / sizeof((a)[0])); for (unsigned i_ = 0; i_ < sizeof(a) / sizeof((a)[0]); i_++) P((a)[i_]); } while (0)\n"
        text += "static void V(int n, ...) { va_list ap; va_start(ap, n); while (n--) P(va_arg(ap, int)); va_end(ap); }\n"
        text += "\n".join(self.macros) + "\n" + "\n".join(t for t, st, e in items) + "\nint main(void) {\n" + "\n".join(st for t, st, e in items) + "\nreturn 0; }\n"
        return text, [x for t, st, e in items for x in e]

    def bad(self):
        """a directive that has to be rejected"""
        s = self.s
        n = self.resource()
        q = "\"%s\"" % n
        self.cls.add("error")
        b = s.choice(["#embed \"none.bin\"", "#embed <none>", "#embed", "#embed %s limit(-1)", "#embed %s limit()", "#embed %s nonesuch(1)", "#embed %s limit", "#embed %s limit(1", "#embed %s prefix",
                      "#embed %s suffix(1", "#embed \"sub\"", "#embed %s limit(1) limit(2)", "#embed %s prefix(1,) prefix(2,)", "#embed %s limit(1/0)", "#embed %s 5", "#embed %s, 5", "#embed vendor::x", "#embed %s if_empty"])
        return "int printf(const char *, ...);\nstatic int a[] = { 1,\n%s\n};\nint main(void) { return a[0]; }\n" % (b.replace("%s", q) if "%s" in b else b)


class C27(Check):
    id = "C27"
    technique = "property-based testing: generated resources and #embed / __has_embed uses in generated places; the values the compiled program prints (directly and via -E) compared with the bytes of the files (oracle: Python)"
    level_note = "Random exploration with a fixed seed: no absence claim. No reference compiler here knows #embed: the expected values come from the generator's own files."
    rule = "a case is one program with 1 to 10 embeddings or queries; non-trivial if it embeds at least one byte or asks one question"
    batches = {"quick": 400, "thorough": 8000}
    per = 6

    def case(self, s):
        g = Gen(s)
        if s.chance(12):
            return g.bad(), None, g
        text, exp = g.build()
        return text, exp, g

    def judge(self, ctx, text, exp, files, header, via_e, flags):
        d = ctx.fresh()
        w = os.path.join(d, "w")
        for sub in ("sub/deep", "hdr", "w"):
            os.makedirs(os.path.join(d, sub), exist_ok=True)
        for n, b in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)
        if header:
            cc.write(os.path.join(d, header[0]), header[1])
        cc.write(d + "/p.c", text)
        comp = ctx.builds["default"]
        argv = [comp, "-std=c23", "-w", "-I.", *flags]
        if exp is None:
            r = cc.run(argv + ["-E", "p.c", "-o", "p.i"], cwd=d, timeout=30)
            if r.timeout or r.rc is None or r.rc != 1 or "p.c:" not in r.err:
                return "invalid directive: rc=%s %s" % (r.rc, r.err[-200:] or "no diagnostic"), "", "a diagnostic at the directive"
            return None
        src = "p.c"
        if via_e:
            r = cc.run(argv + ["-E", "p.c", "-o", "p.i.c"], cwd=d, timeout=60)
            if r.rc:
                return "-E rejects a valid program: %s" % r.err[-300:], r.err[-300:], ""
            src = "p.i.c"
        r = cc.run(argv + ["-o", "p", src], cwd=d, timeout=60)
        if r.rc:
            return "a valid program is rejected%s: %s" % (" after -E" if via_e else "", r.err[-300:]), r.err[-300:], ""
        x = cc.run(["./p"], cwd=d, timeout=20)
        got = x.out.split()
        if x.rc or got != [str(v) for v in exp]:
            i = next((i for i in range(len(exp)) if i >= len(got) or got[i] != str(exp[i])), len(exp))
            return "value %d printed is %s, want %s (rc=%s)" % (i, got[i] if i < len(got) else None, exp[i] if i < len(exp) else None, x.rc), " ".join(got[:60]), " ".join(map(str, exp[:60]))
        return None

    def one(self, ctx, s, stats=None):
        via_e = s.chance(25)
        flags = s.choice([[], [], ["-g"], ["-O0"]])
        text, exp, g = self.case(s)
        header = g.header if exp is not None else None
        if stats is not None:
            stats.case(text + repr(sorted(g.files.items())), exp is None or bool(exp), sorted(g.cls), sample=text[-1500:])
        return self.fail(ctx, text, exp, g.files, header, via_e, flags)

    def fail(self, ctx, text, exp, files, header, via_e, flags):
        j = self.judge(ctx, text, exp, files, header, via_e, flags)
        if not j:
            return None
        fs = {"p.c": text}
        if header:
            fs[header[0]] = header[1]
        for n, b in files.items():
            fs[n + " (hex)"] = b[:200].hex()
        return Failure(j[0], fs, expected=j[2], actual=j[1], cmd="slimcc -std=c23 -I. %s p.c%s" % (" ".join(flags), " (through -E)" if via_e else ""),
                       extra={"text": text, "exp": exp, "res": {n: b.hex() for n, b in files.items()}, "header": header, "via_e": via_e, "flags": flags})

    def run_batch(self, ctx, idx, src, stats):
        for _ in range(self.per):
            s = Src(src.bits(62))
            f = self.one(ctx, s, stats)
            if f:
                f.choices = s.log
                stats.failures.append(f)

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        f = self.one(ctx, s)
        if f:
            f.choices = s.log
        return f

    def replay_record(self, ctx, rec):
        e = rec.get("extra") or {}
        if "text" not in e:
            return self.recheck(ctx, rec["choices"])
        return self.fail(ctx, e["text"], e["exp"], {n: bytes.fromhex(b) for n, b in e["res"].items()}, e["header"], e["via_e"], e["flags"])


CHECK = C27()
