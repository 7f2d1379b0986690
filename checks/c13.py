"""C13: tokens and literals."""
from fractions import Fraction
from lib.diff import UnitCheck, Unit, PRELUDE

PRE = r'''
#define GN(e) _Generic((e), _Bool:1, char:2, signed char:3, unsigned char:4, short:5, unsigned short:6, int:7, unsigned:8, long:9, unsigned long:10, long long:11, \
  unsigned long long:12, float:13, double:14, long double:15, char *:19, unsigned short *:38, unsigned *:34, int *:21, default:0)
#define STR(...) #__VA_ARGS__
#define XSTR(...) STR(__VA_ARGS__)
static int strlen_(const char *s) { int n = 0; while (s[n]) n++; return n; }
static void PS(const char *s) { PB(s, strlen_(s) + 1); }
static void PE(const void *p, int n, int w) { for (int i = 0; i < n; i++) P(w == 1 ? ((const u8 *)p)[i] : w == 2 ? ((const u16 *)p)[i] : ((const u32 *)p)[i]); }
'''
# code points by class: 1..4 byte encodings and their borders
CPS = [0xa1, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x3b1, 0x4e2d, 0x3042, 0xac00, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x1d11e, 0x2a6d6, 0x10ffff, 0xfeff, 0x2028]
IDCPS = [0xe9, 0xf1, 0x3b1, 0x4e2d, 0x3042, 0xac00, 0x1d7d8 and 0x20000, 0x2a6d6, 0xaa, 0xb5, 0xc0, 0x100, 0x5d0, 0x905]
SIMPLE = ["\\n", "\\t", "\\\\", "\\'", "\\\"", "\\?", "\\a", "\\b", "\\f", "\\r", "\\v", "\\e"]


class C13(UnitCheck):
    id = "C13"
    rule = ("a case is one generated function using literals or token spellings of one class (integers in and out of #if, floating, characters, strings, adjacent operators, "
            "splices/comments/newline styles/identifiers); non-trivial if it holds at least three literals or rewritten tokens")
    batches = {"quick": 800, "thorough": 10000}
    prelude = PRELUDE + PRE
    slimcc_flags = ["-std=c23", "-fenable-universal-char", "-w"]
    units_per_batch = 40
    flagsets = [[], ["-O0"]]
    use_O2 = False

    def gen_unit(self, src, uid):
        k = src.below(12)
        self.ln = []
        f = [self.ints, self.ints, self.ppints, self.floats, self.floats, self.chars, self.strings, self.strings, self.munch, self.lex, self.lex, self.soup][k]
        body, top = f(src, uid)
        fn = "static void fn%d(void) {\n%s\n}" % (uid, "\n".join(body))
        code = "\n".join(top + [fn])
        if src.chance(30) and k not in (11,):
            code = self.mangle(src, code)
        return Unit(code, "fn%d();" % uid, [f.__name__], len(body) >= 3)

    # ---- lexical noise applied to finished text
    def mangle(self, s, code):
        out, i, n = [], 0, s.range(1, 12)
        spots = set(s.below(max(1, len(code) - 1)) for _ in range(n))
        for i, ch in enumerate(code):
            if i in spots and i and not (code[i - 1] == "\\" and ch == "\n"):
                out.append("\\\n")
            out.append(ch)
        t = "".join(out)
        k = s.below(4)
        if k == 1:
            t = t.replace("\n", "\r\n")
        elif k == 2:
            lines = t.split("\n")
            t = "".join(l + (("\r\n" if s.chance(40) else "\n") if j + 1 < len(lines) else "") for j, l in enumerate(lines))
        return t

    # ---- integers
    def seps(self, s, d):
        if len(d) < 2 or not s.chance(30):
            return d
        out = d[0]
        for c in d[1:]:
            if s.chance(25):
                out += "'"
            out += c
        return out

    def intval(self, s):
        k = s.below(6)
        if k == 0:
            return s.below(20)
        if k == 1:
            return s.bits(s.range(1, 64))
        b = s.choice([7, 8, 15, 16, 31, 32, 33, 62, 63, 64])
        v = (1 << b) + s.range(-2, 2)
        return min(v, (1 << 64) - 1)

    def intlit(self, s, pp=False):
        v = self.intval(s)
        suf = s.choice(["", "", "", "u", "U", "l", "L", "ul", "UL", "lu", "Lu", "LU", "uL", "ll", "LL", "ull", "ULL", "llu", "LLU", "uLL", "LLu", "Ull"])
        base = s.below(5)
        if base == 0:
            if "u" not in suf.lower():
                v &= (1 << 63) - 1
            elif pp is False:
                pass
            t = self.seps(s, str(v))
            if t[0] == "0" and len(t) > 1:
                t = "0"
        elif base == 1:
            d = "%x" % v if s.chance(50) else "%X" % v
            if s.chance(20):
                d = "0" * s.range(1, 20) + d
            t = s.choice(["0x", "0X"]) + self.seps(s, d)
        elif base == 2:
            d = bin(v)[2:]
            if s.chance(20):
                d = "0" * s.range(1, 9) + d
            t = s.choice(["0b", "0B"]) + self.seps(s, d)
        elif base == 3:
            d = oct(v)[2:]
            if s.chance(20):
                d = "0" * s.range(1, 5) + d
            t = "0" + ("'" if s.chance(8) else "") + self.seps(s, d)
        else:
            t = s.choice(["0", "00", "0x0", "0b0", "0'0", "1'0", "0X0"])
        return t + suf

    def ints(self, s, uid):
        body = []
        for _ in range(s.range(1, 6)):
            l = self.intlit(s)
            body.append("P(%s); P(GN(%s)); P(sizeof(%s)); P(-1 < %s - %s); P(GN(-%s)); P(sizeof(%s + 0u));" % (l, l, l, l, l, l, l))
            if s.chance(30):
                body.append("P(-%s); P(%s +%s); PS(STR(%s)); PS(XSTR(%s));" % (l, l, l, l, l))
        return body, []

    def ppints(self, s, uid):
        body = []
        for _ in range(s.range(1, 5)):
            a, b = self.intlit(s, True), self.intlit(s, True)
            if s.chance(25):
                a = self.charlit(s, True)
            e = s.choice(["%s %s %s" % (a, s.choice(["<", ">", "==", "!=", "<=", ">="]), b), "%s - %s < 0" % (a, b), "-%s < 0" % a, "~%s > 0" % a, "%s & %s" % (a, b), "%s >> 31 == %s" % (a, b),
                          "(%s ^ %s) > %s" % (a, b, a), "%s + 1 > 0" % a, "%s * 2 > %s" % (a, b), "%s / 3 < %s" % (a, b) , "-1 > %s" % a, "%s - 1 >= 0" % a, "(%s ? -1 : %s) > 0" % (a, b)])
            body.append("\n#if %s\nP(1);\n#else\nP(2);\n#endif" % e)
        return body, []

    # ---- floating
    def floats(self, s, uid):
        body = []
        for _ in range(s.range(1, 6)):
            k = s.below(6)
            suf = s.choice(["", "", "", "f", "F", "l", "L"])
            if k == 0:
                a, b = str(s.below(1000)), str(s.below(100000))
                t = s.choice([a + ".", "." + b, a + "." + b, a + "e%d" % s.range(-20, 20), a + ".e+%d" % s.below(20), "." + b + "E-%d" % s.below(20), "00" + a + "." + b, "0" + a + "e0", a + ".0e00"])
                if s.chance(30):
                    t = t.replace(a, self.seps(s, a), 1)
            elif k == 1:
                h, g = "%x" % s.bits(s.range(1, 60)), "%X" % s.bits(s.range(1, 40))
                t = s.choice(["0x%sp%d" % (h, s.range(-60, 60)), "0X%s.%sP%d" % (h, g, s.range(-60, 60)), "0x.%sp+%d" % (g, s.below(30)), "0x%s.p-%d" % (h, s.below(30))])
                if s.chance(20):
                    t = t.replace(h, self.seps(s, h), 1)
            elif k == 2:  # borders of the range
                t = s.choice(["4.9e-324", "2.4703282292062328e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "1.7976931348623157e308", "1.17549435e-38", "1.4e-45", "3.40282347e38",
                              "1e-320", "5e-324", "1e308", "1e38", "1e-40", "9007199254740993.0", "9007199254740991.5", "16777217.0", "0.1", "1e23", "8.5e22", "1e22", "6.02214076e23"])
                if suf in "fF" and suf and float(t) > 3e38:
                    suf = ""
            elif k == 3:  # halfway between two doubles or floats, and its neighbourhood
                p = s.choice([53, 24, 53, 64])
                m = (1 << (p - 1)) | s.bits(p - 1)
                e = s.range(-30, 30)
                x = Fraction(2 * m + 1, 2) * Fraction(2) ** (e - p)
                t = self.decimal(x)
                j = s.below(4)
                if j == 1:
                    t += "0" * s.below(20) + "1"
                elif j == 2:
                    t = self.decimal(x - Fraction(1, 10 ** (s.range(30, 60))))
                suf = {53: "", 24: "f", 64: "L"}[p] if s.chance(70) else s.choice(["", "f", "L"])
            elif k == 4:
                t = "%d.%0*de%d" % (s.below(10), s.range(1, 22), s.bits(60), s.range(-40, 38 if suf and suf in "fF" else 300) if s.chance(80) else s.range(-37, 37))
                if suf and suf in "fF" and "e-" in t and int(t.split("e")[1]) < -37:
                    suf = ""
            else:
                t = "%d.0" % s.bits(s.range(1, 64))
            if len(t) > 200:
                continue
            l = t + suf
            n = {"": 8, "f": 4, "l": 10}[suf.lower()]
            ty = {"": "double", "f": "float", "l": "long double"}[suf.lower()]
            body.append("{ static %s c = %s; %s v = %s; PB(&c, %d); PB(&v, %d); P(GN(%s)); double d = %s; PB(&d, 8); float f = %s; PB(&f, 4); v = -%s; PB(&v, %d); P(sizeof(%s)); }"
                        % (ty, l, ty, l, n, n, l, l, l if n == 4 or abs(float(t.replace("'", "")) if "x" not in t.lower() else 0) < 3e38 else "0.0f", l, n, l))
        return body, []

    def decimal(self, x):
        # exact decimal expansion of a dyadic rational, cut at 120 digits
        n, d = x.numerator, x.denominator
        k = 0
        while d % 2 == 0:
            d //= 2
            n *= 5
            k += 1
        while d % 5 == 0:
            d //= 5
            n *= 2
            k += 1
        st = str(n).rjust(k + 1, "0")
        return (st[:-k] + "." + st[-k:]) if k else st + ".0"

    # ---- characters
    def chunk(self, s, w, quote):
        """One source character (or escape) valid for code units of w bits: (text, is_numeric_escape)."""
        k = s.below(9)
        if k < 2:
            c = s.choice("abcXYZ019 _+-*/%&|()[]{}<>.,;:!?#~^=$@`'\"")
            if c == quote:
                c = "\\" + c
            return c, False
        if k == 2:
            if s.chance(1, 6):
                return s.choice(["\\u0024", "\\u0040", "\\u0060", "\\U00000024"]), False
            if w > 8 or quote == '"':
                return s.choice(SIMPLE + ["\\\\u00e9", "\\\\U0001f600", "\\\\\\u00e9", "\\\\u12"] if quote == '"' else SIMPLE), False
            return s.choice(SIMPLE), False
        if k == 3:
            v = s.below(min(512, 1 << w))
            f = s.choice(["\\%o", "\\%03o"]) % v
            return f, True
        if k == 4:
            v = s.bits(s.range(1, w))
            return "\\x%s%s" % ("0" * s.choice([0, 0, 0, 5, 12]), ("%x" if s.chance(50) else "%X") % v), True
        if w == 8 and quote == "'":
            return s.choice("mnpq"), False
        cp = s.choice(CPS)
        if w == 16 and quote == "'" and cp > 0xffff:
            cp = 0x20ac
        if k < 7:
            return chr(cp), False
        return ("\\u%04x" % cp if cp < 0x10000 and s.chance(70) else "\\U%08X" % cp), False

    def charlit(self, s, pp=False):
        p = s.choice(["", "", "", "L", "u", "U"])
        w = {"": 8, "L": 32, "u": 16, "U": 32}[p]
        return "%s'%s'" % (p, self.chunk(s, w, "'")[0])

    def chars(self, s, uid):
        body = []
        for _ in range(s.range(1, 6)):
            l = self.charlit(s)
            body.append("P(%s); P(GN(%s)); P(sizeof(%s)); P(%s < 0);" % (l, l, l, l))
            if s.chance(20):
                body.append("switch (%s) { case %s: P(1); break; default: P(2); }" % (l, l))
            if s.chance(25):
                body.append("PS(STR(%s));" % l if "\\u" not in l and "\\U" not in l else "")
        return body, []

    # ---- strings
    def strlit(self, s, p):
        w = {"": 8, "L": 32, "u": 16, "U": 32, "u8": 8}[p]
        t, prevnum = "", False
        for _ in range(s.choice([0, 1, 2, 3, 5, 9])):
            c, num = self.chunk(s, w, '"')
            t += c
        return '%s"%s"' % (p, t)

    def strings(self, s, uid):
        body, top = [], []
        for i in range(s.range(1, 4)):
            p = s.choice(["", "", "L", "u", "U"])
            parts = []
            for j in range(s.choice([1, 1, 2, 3, 5])):
                q = p if s.chance(60) else ""
                parts.append(self.strlit(s, q))
            if p and not any(x.startswith(p) for x in parts):
                parts[s.below(len(parts))] = p + '"%s"' % s.choice(["", "a", "é"])
            sep = s.choice(["", " ", "\n", "/**/", " // x\n"])
            # pieces without a prefix next to wide pieces must not hold numeric escapes out of range: all are within 8 bits here
            l = sep.join(parts) if sep else " ".join(parts)
            el = {"": 1, "L": 4, "u": 2, "U": 4}[p]
            ty = {"": "char", "L": "int", "u": "unsigned short", "U": "unsigned"}[p]
            body.append("P(sizeof(%s)); P(GN(%s)); P(sizeof((%s)[0])); PE(%s, sizeof(%s) / %d, %d);" % (l, l, l, l, l, el, el))
            k = s.below(4)
            if k == 0:
                top.append("static const %s str%d_%d[] = %s;" % (ty, uid, i, l))
                body.append("P(sizeof str%d_%d); PE(str%d_%d, sizeof str%d_%d / %d, %d);" % (uid, i, uid, i, uid, i, el, el))
            elif k == 1:
                body.append("{ %s v[] = %s; P(sizeof v); PE(v, sizeof v / %d, %d); static const %s *q = %s; P(q[0]); }" % (ty, l, el, el, ty, l))
            elif k == 2 and not any(x in l for x in ("\\u", "\\U", "//", "\n")):
                body.append("PS(STR(%s)); PS(XSTR(STR(%s)));" % (l, l))
            elif k == 3:
                body.append("{ %s v[%d] = %s; PE(v, %d, %d); P(%s[sizeof(%s) / %d - 1]); }" % (ty, 70, l, 70, el, l if sep != "" else "(%s)" % l, l, el))
        return body, top

    # ---- operators side by side without spaces
    def munch(self, s, uid):
        body = []
        body.append("int a = %d, b = %d, c = %d, *p = &a, arr[3] = {1, 2, 3}, x = 0; struct { int e, x1; } st = {4, 5}, *ps = &st;" % (s.range(1, 9), s.range(1, 9), s.range(1, 4)))
        pool = ["a+++b", "a---b", "a+ ++b", "a- --b", "a- -b", "a+ +b", "a-+-b", "a+-+b", "a<<b", "a>>c", "a<-b", "a>-b", "a&&b", "a& *p", "a*-b", "a/ *p", "a/ +b", "!a==!b", "a!=-b", "a<=b", "a>=-b", "~-a", "-~a",
                "a?b:c", "a?-b:-c", "a?b? 1:2:3", "a%-b", "a|~b", "a^-b", "ps->e", "ps->e-->3", "st.e+.5", "a&&!b", "a||-b", "a&&&b!=0", "arr[0]+++arr[1]", "a-->0", "p[0]---p[0]", "a<b<c", "a<<b>>c", "a=b=c", "a+=b",
                "a-=-b", "a*=b", "a<<=c", "a>>=c", "a&=b", "a|=b", "a^=b", "a%=b", "a/=b", "x=+a", "x=-a", "x=!a", "x=~a", "x=*p", "x=&a==p", "a==b", "a=-b", "a&b", "a&-b", "1.+a", "1..5" and "1.+.5", ".5e1+1", "1.e1-1",
                "sizeof a+1", "sizeof(a)-1", "sizeof a*b", "-a+-b", "a+(b)", "(a)-(b)", "(a)+b", "(a)*b", "(int)-a", "(int)+a", "(int)~a", "(int)!a", "(char)-1*2", "a,b", "a+1,b", "0x1+a", "0xep1-a", "0x.8p1+a", "1e1+a", "1-a", "0xf-1",
                "1?2:3", "a?:b", "a ?: b", "x=(a,b)", "'a'+1", "L'a'-1", "u'a'+U'b'", "\"abc\"[1]", "1[\"abc\"]", "*\"abc\"+1", "&arr[2]-arr", "&1[arr]-&arr[0]", "a>b>c", "a>>1>b", "a>=b>c", "a!=b==c", "a<b==c", "ps->x1", "(*ps).x1", "(&st)->e"]
        for _ in range(s.range(3, 10)):
            e = s.choice(pool)
            if s.chance(35):
                e2 = s.choice([x for x in pool if self.pure(x)])
                if not self.pure(e):
                    e = s.choice([x for x in pool if self.pure(x)])
                e = "(%s)%s(%s)" % (e, s.choice(["+", "-", "*", "&", "|", "^", "==", "<", ">", "&&", "||"]), e2)
            ws = s.below(5)
            if ws == 1:
                e = e.replace(" ", "\t") if s.chance(50) else e.replace("/ ", "/\t").replace(" ", "/**/")
            elif ws == 2:
                e = e.replace(" ", "\v\f")
            elif ws == 3:
                e = e.replace(" ", "\\\n \\\n")
            if "e1" in e or "." in e or "0xep" in e:
                e = "(int)(%s)" % e if not any(ch in e for ch in "%&|^~") else "a"
            body.append("P(%s); PS(STR(%s)); a = %d; b = %d; c = %d;" % (("(%s)" % e), e, s.range(1, 9), s.range(1, 9), s.range(1, 4)))
        return body, []

    def pure(self, e):
        import re
        return not re.search(r"\+\+|--|(?<![=!<>])=(?!=)|<<=|>>=", e)

    # ---- comments, splices, identifiers
    def ident(self, s):
        n = s.choice(["v", "x", "_", "int_", "L", "u8_", "U", "u", "e1", "x_", "_9", "$d", "a$"])
        for _ in range(s.below(4)):
            k = s.below(4)
            cp = s.choice(IDCPS)
            n += s.choice("ab09_Z") if k < 2 else chr(cp) if k == 2 else ("\\u%04x" % cp if cp < 0x10000 else "\\U%08x" % cp)
        if s.chance(5):
            n += "q" * s.choice([60, 90, 120])
        return n

    def lex(self, s, uid):
        body, top = [], []
        seen = {}
        for i in range(s.range(1, 5)):
            k = s.below(9)
            if k < 3:
                n = self.ident(s)
                key = n.encode().decode("raw_unicode_escape") if False else self.canon(n)
                if key in seen or key in ("int_", "L", "u"):
                    n += "%d_" % i
                    key = self.canon(n)
                seen[key] = n
                # refer to it by another spelling
                alt = self.respell(s, n)
                kind = s.below(5)
                if kind == 0:
                    body.append("{ int %s = %d; P(%s + 1); { int %s = 7; P(%s); } }" % (n, i, alt, alt, n))
                elif kind == 1:
                    top.append("#define %s%d_%d (%d)" % (n, uid, i, i + 11))
                    body.append("P(%s%d_%d); \n#ifdef %s%d_%d\nP(5);\n#endif" % (n, uid, i, n, uid, i))
                elif kind == 2:
                    top.append("static int %s%d_%d = %d;" % (n, uid, i, i + 3))
                    body.append("P(%s%d_%d++); P(%s%d_%d);" % (alt, uid, i, n, uid, i))
                elif kind == 3:
                    body.append("{ struct { int %s, a%s; } z = { .%s = 3, .a%s = 4 }; P(z.%s); P(z.a%s); }" % (n, n, alt, n, alt, alt))
                else:
                    body.append("{ goto %s; P(1); %s: P(2); }" % (alt, "%s" % n) if ":" not in n and s.chance(60) else "{ enum { %s = 4 }; P(%s); }" % (n, alt))
            elif k == 3:
                body.append(s.choice(["P(1 /* */ + /**/ 2 /* // */ ); // P(3); /* ", "P(4); /* // */ P(5); /***/ P(6); /*/ P(7); /*/ P(8);", "P(9) // ;\n;", "P('/*'[\"a\"] + 0); /* \" ' */".replace("'/*'[\"a\"]", "\"/*\"[0]"),
                                      "PS(\"//\"); PS(\"/* */\"); P('\"'); P('\\''); // ' \"", "P(1)/**//**/;/* multi\n line \n*/P(2);", "P(8/ /* */2);", "P(8 //**/ 2\n/2);", "/\\\n* comment *\\\n/ P(3);",
                                      "/\\\n/ P(1);\nP(2);", "// foo \\\nP(1);\nP(2);", "P(/*a*/1/*b*/+/*c*/2/*d*/);", "PS(STR(a/**/b)); PS(STR(a /* x\n */ b)); PS(STR(a//\nb));", "PS(\"a\\\nb\"); PS(\"a\\\\\\\nn\"); P('\\\\\\\n') ;" if False else "PS(\"a\\\nb\");",
                                      "P(1?/*:*/2:/*?*/3);", "P(0x1\\\n2); P(1\\\n2\\\n3); in\\\nt q\\\nq = 1 +\\\n+ 1; P(qq);".replace("1 +\\\n+ 1", "1 + 1"), "ret\\\nurn; " if False else "P(si\\\nzeof(in\\\nt));", "int v = 1; v <\\\n<= 2; v +\\\n= 1; P(v); P(v =\\\n= 5); P(v -\\\n-);"]))
                body[-1] = "{ %s\n}" % body[-1]
            elif k == 4:
                body.append("#define E%d_%d(a) \\\n  a + \\\n  1\nP(E%d_%d(%d));" % (uid, i, uid, i, i))
                body[-1] = "\n" + body[-1]
            elif k == 5:
                body.append("\n  %s  %s define D%d_%d /* x */ %d // y\nP(D%d_%d);" % (s.choice(["", "/**/", "\t", "/* a\n b */"]), "#", uid, i, i + 2, uid, i))
            elif k == 6:
                body.append("\n#\n # /* null directive */\nP(%d);" % i)
            elif k == 7:
                u = chr(s.choice(IDCPS))
                body.append("PS(STR(%s)); PS(STR(x%s y)); PS(\"%s\"); PS(STR(\"%s\\n\"));" % (u, u, u, u))
            else:
                body.append("PS(STR(%s)); PS(STR(%s %s));" % (self.ident0(s), self.ident0(s), s.choice(["1.e+1x", "0x1p", "..1", "1..2", ".1.", "1e+e", "0x1.p-3z", "1_a", "1'0", "1ab", "0xe+1"])))
        return body, top

    def ident0(self, s):
        return s.choice(["foo", "L", "u8", "u", "U", "_x", "a1"]) + s.choice(["", "é", "中"])

    def canon(self, n):
        import re
        return re.sub(r"\\u([0-9a-f]{4})|\\U([0-9a-f]{8})", lambda m: chr(int(m.group(1) or m.group(2), 16)), n)

    def respell(self, s, n):
        out = ""
        for ch in self.canon(n):
            o = ord(ch)
            if o < 128 or s.chance(50):
                out += ch
            else:
                out += s.choice(["\\u%04X" % o, "\\U%08x" % o]) if o < 0x10000 else "\\U%08X" % o
        return out

    # ---- random preprocessing tokens seen through the stringizer
    def soup(self, s, uid):
        toks = ["+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "=", "?", ":", ";", ".", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "...", "*=", "+=", "<<=", ">>=", "[", "]", "{", "}",
                "a", "b1", "_", "1", "0x1", ".5", "1e+3", "1.5.2", "'x'", "L'y'", "\"s\"", "u\"t\"", "u8\"v\"", "'\\''", "\"\\\"\"", "\"\\\\\"", "'\\\\'", "é", "0'1", "'\"'", "\"'\"", "x.y", "..", "%="]
        body = []
        for _ in range(s.range(1, 5)):
            t, last = "", ""
            for _ in range(s.range(1, 14)):
                k = s.choice(toks)
                sp = s.choice(["", "", " ", "  ", "\t", "/**/", "\n", " \n "])
                if sp in ("", "/**/") and last[-1:] == "/" or k[0] == "/" and last[-1:] == "/":
                    sp = " "
                elif not sp and ((last[-1:].isalnum() or last[-1:] in ("_", "'", '"', ".")) and (k[0].isalnum() or k[0] in "_'\".") or last[-1:] == "%" or last[-1:] == "<"):
                    sp = " " if not (last[-1:].isalnum() and k.isalnum() and k.isascii()) else ""
                if k == ":" and last[-1:] == "%":
                    k = ";"
                t += sp + k
                last = k
            t = t.strip()
            if t[-1:] == "/":
                t += " "
            body.append("PS(STR(%s)); PS(XSTR(%s));" % (t, t))
        return body, []


CHECK = C13()
