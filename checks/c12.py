"""C12: types of expressions and declarators."""
from lib.diff import UnitCheck, Unit, PRELUDE

BASIC = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long",
         "unsigned long long", "float", "double", "long double"]
SPELL = {"short": [["short"], ["short", "int"], ["signed", "short"], ["signed", "short", "int"]], "unsigned short": [["unsigned", "short"], ["unsigned", "short", "int"]],
         "int": [["int"], ["signed"], ["signed", "int"]], "unsigned": [["unsigned"], ["unsigned", "int"]],
         "long": [["long"], ["long", "int"], ["signed", "long"], ["signed", "long", "int"]], "unsigned long": [["unsigned", "long"], ["unsigned", "long", "int"]],
         "long long": [["long", "long"], ["long", "long", "int"], ["signed", "long", "long"], ["signed", "long", "long", "int"]],
         "unsigned long long": [["unsigned", "long", "long"], ["unsigned", "long", "long", "int"]], "signed char": [["signed", "char"]],
         "unsigned char": [["unsigned", "char"]], "long double": [["long", "double"]]}
QUALS = ["const", "volatile"]

PRE = r'''
#define TC(e, t) __builtin_types_compatible_p(typeof(e), t)
#define B1(e) (TC(e,_Bool)*1+TC(e,char)*2+TC(e,signed char)*3+TC(e,unsigned char)*4+TC(e,short)*5+TC(e,unsigned short)*6+TC(e,int)*7+TC(e,unsigned)*8+TC(e,long)*9+ \
  TC(e,unsigned long)*10+TC(e,long long)*11+TC(e,unsigned long long)*12+TC(e,float)*13+TC(e,double)*14+TC(e,long double)*15+TC(e,void)*16)
#define GN(e) _Generic((e), _Bool:1, char:2, signed char:3, unsigned char:4, short:5, unsigned short:6, int:7, unsigned:8, long:9, unsigned long:10, long long:11, \
  unsigned long long:12, float:13, double:14, long double:15, default:0, void *:17, const void *:18, char *:19, const char *:20, int *:21, const int *:22, volatile int *:23, \
  const volatile int *:24, int (*)(void):25, void (*)(int):26, int (*)[3]:27, double *:28, unsigned char *:29, long *:30, int **:31, int *const *:32, const int **:33, \
  unsigned *:34, int (*(*)(void))(void):35, long long *:36, short *:37, unsigned short *:38, volatile void *:39, const volatile void *:40)
#define GQ(e) _Generic((typeof(e) *)0, int *:1, const int *:2, volatile int *:3, const volatile int *:4, char *:5, const char *:6, long *:7, const long *:8, \
  int **:9, int *const *:10, int *volatile *:11, const int **:12, const int *const *:13, double *:14, const double *:15, unsigned *:16, const unsigned *:17, default:0)
'''


class D:
    """A derived type as a chain over a base: list of ('*', quals) ('[', n) ('(', [param specs])"""

    def __init__(self, base, chain):
        self.base, self.chain = base, chain

    def declare(self, name, s, paren=True):
        """Direct declarator text."""
        return "%s %s" % (self.base, self.declarator(name, s, paren))

    def declarator(self, name, s, paren=True):
        d, prev = name, None
        for op in self.chain:
            if paren and s.chance(12) and d:
                d, prev = "(%s)" % d, None
            if op[0] == "*":
                d = "*%s%s" % (op[1] + " " if op[1] else "", d)
                prev = "*"
            else:
                if prev == "*":
                    d = "(%s)" % d
                d = d + ("[%s]" % op[1] if op[0] == "[" else "(%s)" % op[1])
                prev = op[0]
        return d

    def typedefs(self, p, s):
        """Build the same type through typedefs: (declarations, final type name)."""
        out, cur = [], self.base
        # innermost derivation is the last of the chain
        i = len(self.chain)
        n = 0
        while i > 0:
            k = min(i, s.choice([1, 1, 2, 3]))
            part = D(cur, self.chain[i - k:i])
            i -= k
            n += 1
            t = "%s_%d" % (p, n)
            out.append("typedef %s;" % part.declare(t, s))
            cur = t
        return out, cur


class C12(UnitCheck):
    id = "C12"
    rule = ("a case is one generated declarator (compared with the same type built through typedefs and measured at every level of peeling), "
            "expression (its type reported by sizeof, _Generic with and without qualifiers, typeof and types_compatible_p) or specifier list; "
            "non-trivial if the declarator has at least three derivations or the expression at least two operators")
    batches = {"quick": 350, "thorough": 8000}
    prelude = PRELUDE + PRE
    slimcc_flags = ["-std=c23", "-w"]
    units_per_batch = 24
    flagsets = [[], ["-O0"]]

    def gen_unit(self, src, uid):
        k = src.below(10)
        if k < 3:
            return self.declarators(src, uid)
        if k < 5:
            return self.specifiers(src, uid)
        return self.exprs(src, uid)

    # ---- declarators
    def base(self, s, uid, quals=True):
        b = s.choice(BASIC + ["void", "struct Q%d" % uid, "enum N%d" % uid])
        if quals and s.chance(25):
            q = s.choice(QUALS)
            b = s.choice(["%s %s", "%s %s"]) % ((q, b) if s.chance(50) else (b, q))
        return b

    def params(self, s, uid, depth):
        k = s.below(8)
        if k == 0:
            return "void"
        if k == 1:
            return "" if False else "void"
        ps = []
        for i in range(s.range(1, 3)):
            j = s.below(8)
            nm = s.choice(["", "a%d" % i, "p%d" % i])
            if j == 0:
                ps.append("int %s[%s]" % (nm or "a%d" % i, s.choice(["", "4", "static 3", "const", "const 5", "static const 2", "restrict 4"])))
            elif j == 1:
                ps.append("%s %s(%s)" % (s.choice(["int", "void", "char *"]), nm or "f%d" % i, s.choice(["void", "int", "char, double"])))
            elif j == 2 and depth > 0:
                d = self.chain(s, uid, s.range(1, 3), depth - 1, param=True)
                ps.append(D(s.choice(BASIC), d).declare(nm or "q%d" % i, s, False))
            elif j == 3:
                ps.append("%s (%s)" % (s.choice(BASIC), nm or "z%d" % i))
            elif j == 4:
                ps.append("int %s[%d][%d]" % (nm or "m%d" % i, s.range(1, 4), s.range(1, 4)))
            else:
                ps.append("%s %s%s" % (s.choice(BASIC), s.choice(["", "*", "const ", "*const "]), nm))
        if s.chance(20):
            ps.append("...")
        return ", ".join(ps)

    def chain(self, s, uid, n, depth, param=False, void=False):
        c = []
        for i in range(n):
            prev = c[-1][0] if c else None
            ops = ["*", "*"]
            if prev != "(":
                ops += ["["]
            if prev != "[":
                if prev != "(" and not (param and prev is None):
                    ops += ["("]
            o = s.choice(ops)
            if prev == "(" and o in "[(":
                o = "*"
            if prev == "[" and o == "(":
                o = "*"
            if o == "*":
                c.append(("*", s.choice(["", "", "", "const", "volatile", "const volatile"])))
            elif o == "[":
                c.append(("[", s.range(1, 5)))
            else:
                c.append(("(", self.params(s, uid, depth)))
        return c

    def declarators(self, s, uid):
        code = ["struct Q%d { int a; double d; char c[5]; };" % uid, "enum N%d { N%d_a, N%d_b = 70000 };" % (uid, uid, uid)]
        body = []
        deep = 0
        for i in range(s.range(1, 3)):
            n = s.range(1, 6)
            base = self.base(s, uid)
            c = self.chain(s, uid, n, 1)
            if "void" in base.split() and c[-1][0] == "[":
                c.append(("*", ""))
                c[-2], c[-1] = c[-1], c[-2]
                if c[0][0] == "(" and False:
                    pass
                if len(c) > 2 and c[-3][0] == "(" and c[-2][0] == "[":
                    continue
                base = base.replace("void", "int")
            # functions cannot return arrays or functions, arrays cannot hold functions
            ok = all(not (c[j][0] == "(" and c[j + 1][0] in "[(") and not (c[j][0] == "[" and c[j + 1][0] == "(") for j in range(len(c) - 1))
            if not ok:
                continue
            # qualified void or function results cause noise only
            deep = max(deep, len(c))
            d = D(base, c)
            x = "x%d_%d" % (uid, i)
            fn = c[0][0] == "("
            code.append("extern %s;" % d.declare(x, s))
            tds, t = d.typedefs("T%d_%d" % (uid, i), s)
            code += tds
            if s.chance(60):
                code.append("extern %s %s;" % (t, x))
            if s.chance(40):
                code.append("extern typeof(%s) %s;" % (D(base, c).declare("", s, False), x))
            body.append("P(TC(%s, %s));" % (x, t))
            body.append("P(__builtin_types_compatible_p(typeof(&%s), %s *));" % (x, t))
            body.append("P(__builtin_types_compatible_p(%s, %s));" % (D(base, c).declare("", s, False), t))
            # a near miss: one derivation changed
            c2 = list(c)
            j = s.below(len(c2))
            if c2[j][0] == "*" and all(o[0] == "[" for o in c2[:j]):
                j = 0  # qualifiers of the elements count as top-level ones, which the builtin ignores
            if c2[j][0] == "[":
                c2[j] = ("[", c2[j][1] + 1)
            elif c2[j][0] == "*":
                c2[j] = ("*", "const" if "const" not in c2[j][1] else "")
            else:
                c2[j] = ("(", s.choice(["void", "int", "char *, ...", "unsigned"]))
            body.append("P(TC(%s, %s));" % (x, D(base, c2).declare("", s, False)))
            body.append("P(__builtin_types_compatible_p(typeof(&%s), %s));" % (x, D(base, c2 + []).declarator("*", s, False).join([base + " ", ""]) if False else "%s *" % t))
            # peel one derivation after the other
            e = x
            if not fn:
                body.append("P(sizeof %s); P(_Alignof(typeof(%s)));" % (e, e))
            for j, op in enumerate(c):
                if op[0] == "*":
                    e = "(*%s)" % e if s.chance(70) or (j + 1 < len(c) and c[j + 1][0] == "(") else "%s[0]" % e
                elif op[0] == "[":
                    e = s.choice(["%s[0]", "(*%s)"]) % e
                else:
                    e = self.callit(s, e, op[1])
                last = j == len(c) - 1
                nxt = base if last else c[j + 1][0]
                if nxt == "(" or (last and "void" in base.split()):
                    continue
                body.append("P(sizeof(%s));" % e)
                if last and "struct" not in base and "enum" not in base:
                    body.append("P(B1(%s));" % e)
            # through pointer arithmetic and address-of
            if c[0][0] != "(":
                body.append("P(sizeof(*&%s)); P(sizeof(&%s + 1));" % (x, x))
        if not body:
            return None
        return Unit("\n".join(code) + "\nstatic void fn%d(void) {\n%s\n}" % (uid, "\n".join(body)), "fn%d();" % uid, ["declarator"], deep >= 3)

    def callit(self, s, e, ps):
        # only the type of the call matters: cast to nothing, pass zeros of any kind
        n = 0 if ps in ("void", "") else self.top(ps)
        return "%s(%s)" % (e, ", ".join(["0"] * n))

    def top(self, ps):
        d, n = 0, 1
        for ch in ps:
            d += ch in "([" 
            d -= ch in ")]"
            n += ch == "," and d == 0
        return n - ps.rstrip().endswith("...")

    # ---- specifiers
    def specifiers(self, s, uid):
        body, code = [], []
        for i in range(4):
            b = s.choice(BASIC)
            words = list(s.choice(SPELL.get(b, [[b]])))
            n = "s%d_%d" % (uid, i)
            extra = []
            kind = s.choice(["obj", "typedef", "typedef", "atomic", "align", "typeof", "auto", "enum", "static"])
            q = [x for x in QUALS if s.chance(30)]
            if s.chance(20) and q:
                q.append(q[0])
            if kind == "typedef":
                w = self.shuffle(s, words + q + ["typedef"])
                code.append("%s %s, *%sp;" % (" ".join(w), n, n))
                body.append("{ %s v = 0; P(B1(v)); P(GQ(v)); P(sizeof(%s)); P(GQ(*(%sp)0)); }" % (n, n, n))
                code.append("const %s %sc = 1; static volatile %s %sv;" % (n, n, n, n))
                body.append("P(GQ(%sc)); P(GQ(%sv)); P(GN(%sc)); P(TC(%sc, %s));" % (n, n, n, n, n))
                body.append("{ int %s = 3; P(sizeof %s); P(%s * 2); } { struct { %s %s; int : 3; } z; P(sizeof z.%s); }" % (n, n, n, n, n, n))
            elif kind == "obj" or kind == "static":
                w = self.shuffle(s, words + q + (["static"] if kind == "static" else []) + (["extern"] if kind == "obj" and s.chance(30) else []))
                ini = "" if "extern" in w else " = 1"
                code.append("%s %s%s;" % (" ".join(w), n, ini))
                body.append("P(B1(%s)); P(GQ(%s)); P(GN(%s)); P(sizeof(%s)); P(GN(+%s));" % (n, n, n, n, n))
                body.append("P(_Generic(&%s, typeof(%s) *: 1, default: 0)); P(GQ((typeof_unqual(%s))0));" % (n, n, n))
                body.append("{ typeof_unqual(%s) u; P(GQ(u)); typeof(%s) *pu; P(GQ(*pu)); }" % (n, n))
            elif kind == "atomic":
                w = self.shuffle(s, words + q + ["_Atomic"]) if s.chance(50) else ["_Atomic(%s)" % " ".join(words)] + q
                code.append("static %s %s;" % (" ".join(w), n))
                body.append("P(sizeof %s); P(_Alignof(typeof(%s))); P(GN(%s)); P(GN(%s + 1)); P(_Generic((%s), %s: 1, default: 0));" % (n, n, n, n, n, b))
                body.append("{ typeof_unqual(%s) u = 0; P(GN(u)); P(GQ(u)); }" % n)
            elif kind == "align":
                a = s.choice([16, 32, 64, "long double"])
                w = self.shuffle(s, words + q)
                w.insert(s.below(len(w) + 1) if len(words) > 9 else 0, "_Alignas(%s)" % a)
                code.append("static %s %s;" % (" ".join(w), n))
                body.append("P(_Alignof %s %% 1024); P((unsigned long)&%s %% 8); P(sizeof %s);" % (n, n, n))
            elif kind == "typeof":
                w = self.shuffle(s, words + q)
                t = " ".join(w)
                code.append("static typeof(%s) %sa, *%sb = 0; static __typeof__(%sa) *%sc;" % (t, n, n, n, n))
                code.append("typedef typeof(%s [3]) %sarr; static %sarr %sz; static const %sarr %scz = { 0 };" % (t, n, n, n, n, n))
                body.append("P(B1(%sa)); P(GQ(%sa)); P(GQ(*%sb)); P(GQ(*%sc)); P(sizeof %sz); P(GQ(%sz[0])); P(GQ(%scz[1])); P(sizeof(%scz)); P(TC(%sz, typeof(%sb[0]) [3]));" % ((n,) * 10))
            elif kind == "auto":
                e = s.choice(["1", "1u", "1.0f", "(char)1", "'a'", "\"abc\"", "(short)1 + (short)2", "(const int)3", "1l << 2", "sizeof 1", "(_Bool)1", "&gi", "gi", "garr",
                              "&garr", "gfn", "*&gi", "(volatile int *)0", "gc", "&gc", "1 ? 1 : 2u", "gs.bf + 0", "~(unsigned char)1", "!1.0", "L'x'", "u'x'", "U'x'"])
                kw = s.choice(["auto", "__auto_type", "auto const", "const auto", "static auto" if not any(x in e for x in ("gi", "gs", "gc")) or e[0] == "&" else "auto", "auto register"])
                body.append("{ %s v = %s; P(sizeof v); P(GN(v)); P(GQ(v)); }" % (kw, e))
            else:
                t = s.choice(["char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "signed char"])
                fx = " : " + t if s.chance(60) else ""
                hi = s.choice([1, 100]) if fx else s.choice([1, 1, 0x7fffffff, 0x80000000, 0xffffffff])
                lo = -1 if s.chance(30) and "unsigned" not in fx and hi < 0x80000000 and fx != " : char" else 0
                code.append("enum %s%s { %sA = %d, %sB = %d };" % (n, fx, n, lo, n, hi))
                body.append("{ enum %s v = %sA; P(sizeof v); P(GN(v)); P(GN(%sA)); P(GN(%sB + 0)); P(GN(+v)); P((v - 1 < 0) + 2 * (%sA - 1 < 0)); P(B1(v)); P(__builtin_types_compatible_p(enum %s, %s)); }" % (n, n, n, n, n, n, t))
        code.append("")
        return Unit("\n".join(code) + "\nstatic void fn%d(void) {\n%s\n}" % (uid, "\n".join(body)), "fn%d();" % uid, ["specifiers"], True)

    def shuffle(self, s, w):
        w = list(w)
        for i in range(len(w) - 1, 0, -1):
            j = s.below(i + 1)
            w[i], w[j] = w[j], w[i]
        return w

    # ---- expressions
    ARITH = ["vb", "vc", "vsc", "vuc", "vs", "vus", "vi", "vu", "vl", "vul", "vll", "vull", "cvi", "vvl", "gs.bf", "gs.ubf", "gs.i", "gps->c", "ve", "EA", "EB", "'a'", "1", "1u", "1l", "1ull",
             "true", "sizeof(int)", "gs.full", "gs.b1", "u'a'", "U'a'", "L'a'", "0x80000000", "2147483648", "0xffffffffffffffff", "077777777777777777777"]
    FLO = ["vf", "vd", "vld", "1.0", "1.0f", "1.0l", "cvd"]
    PTR = ["pi", "pci", "pvi", "garr", "pc", "&vi", "&cvi", "&garr[1]", "\"abc\"", "pd", "ppi", "parr", "&garr", "pv", "pcv", "gfn", "pfn", "&gfn", "garr2", "garr2[1]", "cgarr", "&cgarr[0]",
           "pcvi", "gps", "pcs", "&pcs->i", "pcs->arr", "(void *)0", "ppci", "*ppi", "pfn2", "gs.arr", "&gs.arr", "(const char *)pc", "L\"ab\"", "u\"ab\"", "U\"x\""]

    def num(self, s, d):
        if d <= 0:
            return s.choice(self.ARITH) if s.below(5) else s.choice(self.FLO)
        k = s.below(13)
        self.ops += 1
        if k < 3:
            return "(%s %s %s)" % (self.num(s, d - 1), s.choice(["+", "-", "*", "/"]), self.num(s, d - 1))
        if k == 3:
            return "(%s %s %s)" % (self.int(s, d - 1), s.choice(["<<", ">>", "&", "|", "^", "%"]), self.int(s, d - 1))
        if k == 4:
            return "(%s %s %s)" % (self.num(s, d - 1), s.choice(["<", "==", "&&", "||", "!=", ">="]), self.num(s, d - 1))
        if k == 5:
            return "(%s ? %s : %s)" % (self.num(s, d - 1), self.num(s, d - 1), self.num(s, d - 1))
        if k == 6:
            return "%s%s" % (s.choice(["-", "+", "!"]), self.num(s, d - 1).join("()"))
        if k == 7:
            return "(%s)%s" % (s.choice(BASIC), self.num(s, d - 1).join("()"))
        if k == 8:
            return "(%s, %s)" % (self.num(s, d - 1), self.num(s, d - 1))
        if k == 9:
            v = s.choice(["vc", "vs", "vi", "vul", "vf", "vd", "vuc", "vld", "vb", "gs.i", "gps->c", "vvl"])
            return "(%s %s %s)" % (v, s.choice(["=", "+=", "*=", "-="]), self.num(s, d - 1))
        if k == 10:
            v = s.choice(["vc", "vs", "vi", "vul", "vf", "vuc", "gs.i"])
            return s.choice(["%s++", "++%s", "%s--"]) % v
        if k == 11:
            return "({ %s; })" % self.num(s, d - 1)
        return "_Generic(+ %s, int: + %s, default: + %s)" % (self.num(s, d - 1), self.num(s, d - 1), self.num(s, d - 1))

    def int(self, s, d):
        if d <= 0:
            return s.choice(self.ARITH)
        self.ops += 1
        return s.choice(["(%s + %s)", "(%s & %s)", "(%s << %s)", "(%s == %s)", "(%s | %s)"]) % (self.int(s, d - 1), self.int(s, d - 1))

    def ptr(self, s, d):
        if d <= 0:
            return s.choice(self.PTR)
        k = s.below(12)
        self.ops += 1
        if k < 3:
            p = s.choice(["pi", "pci", "garr", "pc", "pd", "ppi", "parr", "garr2", "&vi", "pvi", "cgarr", "&garr", "\"abc\"", "gps"])
            return s.choice(["((%s) + vi)", "((%s) - 1)", "(vl + (%s))", "&(%s)[1]", "&*(%s)", "(%s, %s)" % (self.num(s, 0), "%s")]) % p
        if k < 7:
            a, b = s.choice([("pi", "pci"), ("pi", "pvi"), ("pci", "pvi"), ("pi", "0"), ("pv", "pi"), ("pcv", "pi"), ("pci", "pv"), ("garr", "pci"), ("garr", "garr"), ("(void *)0", "pi"),
                             ("gfn", "pfn"), ("gfn", "&gfn"), ("parr", "paru"), ("pcv", "pci"), ("\"abc\"", "pc"), ("\"ab\"", "\"abcd\""), ("pfn", "0"), ("pvi", "pcv"), ("ppi", "pv"), ("pcvi", "pi"), ("gps", "pcs"),
                             ("pcs", "(void *)0"), ("pv", "(void *)0"), ("cgarr", "garr"), ("pfn2", "pfn2b")])
            if s.chance(50):
                a, b = b, a
            return "(%s ? %s : %s)" % (self.num(s, 0), a, b)
        if k == 7:
            return "(%s)%s" % (s.choice(["int *", "const char *", "void *", "int (*)[3]", "int (*)(void)", "int *const *", "double *", "long *"]), s.choice(["pi", "0", "pv", "garr", "vl"]))
        if k == 8:
            return "({ %s; })" % s.choice(self.PTR)
        if k == 9:
            return s.choice(["(pi = garr)", "pi++", "(ppi += 1)", "(pc = 0)", "(pci = pi)", "--pd", "(pv = pi)"])
        if k == 10:
            return s.choice(["((int[]){1, 2, 3})", "&(int){1}", "&(const int){1}", "(char[]){\"abc\"}", "(const int[3]){0}", "fs().arr", "fs2()->arr", "(vi ? gs : gs).arr", "(gs, gs).arr", "(gs = gs).arr"])
        return self.ptr(s, 0)

    def exprs(self, s, uid):
        body, deep = [], 0
        for i in range(6):
            self.ops = 0
            k = s.below(10)
            if k < 6:
                e = self.num(s, s.range(1, 3))
            else:
                e = self.ptr(s, s.range(0, 2))
            deep = max(deep, self.ops)
            body.append("P(sizeof(%s)); P(GN(%s));" % (e, e) if s.chance(95) else "P(sizeof(typeof(%s))); P(GN(%s));" % (e, e))
            if k >= 6:
                x = e if s.chance(50) else "(%s)" % e
                body.append("P(GQ(%s)); P(sizeof(%s + 0));" % (x, x) if not any(t in e for t in ("pv", "pcv", "fn", "(void *)0", "int (*)(void)", "paru")) else "P(sizeof(*&*&vi));")
                if not any(t in e for t in ("pv", "pcv", "(void *)0", "void *", "fn", "(*)(void)", "paru")):
                    body.append("P(sizeof(*(%s))); P(GN(*(%s))); P(GQ(*(%s))); P(GQ((%s)[0]));" % (e, e, e, e))
            else:
                body.append("P(GN(({ auto av = %s; av; }))); { typeof(%s) tv; P(GN(tv)); P(B1(%s)); }" % (e, e, e))
                if s.chance(40):
                    body.append("P((%s) - (%s) < 0 ? 1 : 2);" % ("(typeof(%s))0" % e, "(typeof((%s)))1" % e))
        return Unit("static void fn%d(void) {\n%s%s\n}" % (uid, LOCALS, "\n".join(body)), "fn%d();" % uid, ["expression"], deep >= 2)


LOCALS = ""
GLOB = r'''
enum En { EA, EB = 5 };
struct Sn { int bf : 5; unsigned ubf : 7; int i; char c; unsigned full : 32; _Bool b1 : 1; int arr[3]; };
static struct Sn gs, *gps = &gs; static const struct Sn *pcs = &gs;
static struct { unsigned long l33 : 33; } vbits;
static _Bool vb; static char vc; static signed char vsc; static unsigned char vuc; static short vs; static unsigned short vus; static int vi; static unsigned vu; static long vl;
static unsigned long vul; static long long vll; static unsigned long long vull; static float vf; static double vd; static long double vld; static const int cvi = 1; static volatile long vvl;
static const double cvd = 1; static enum En ve; static const char gc = 1; static int gi;
static int garr[3], garr2[2][3]; static const int cgarr[3]; static int *pi = garr; static const int *pci = garr; static volatile int *pvi; static const volatile int *pcvi;
static char *pc; static double *pd; static int **ppi = &pi; static const int **ppci; static int (*parr)[3] = &garr; static int (*paru)[]; static void *pv; static const void *pcv;
static int gfn(void) { return 1; } static int (*pfn)(void) = gfn; static int (*pfn2)(int (*)[3]); static int (*pfn2b)(int (*)[]);
static struct Sn fs(void) { return gs; } static struct Sn *fs2(void) { return &gs; }
'''
C12.prelude = PRELUDE + PRE + GLOB
CHECK = C12()
