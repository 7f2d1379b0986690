"""C02: constant evaluation agrees with run-time evaluation."""
import re
from lib.diff import UnitCheck, Unit, PRELUDE
from lib.cexpr import *
from lib import cc

TYPEIDX = ("_Generic((%s), _Bool:1, char:2, signed char:3, unsigned char:4, short:5, unsigned short:6, int:7, unsigned:8, long:9, "
           "unsigned long:10, long long:11, unsigned long long:12, float:13, double:14, long double:15, default:99)")


class CGen(Gen):
    """Constant-only generator whose leaves are holes: filled by literals or by variables."""

    def __init__(self, src, **kw):
        Gen.__init__(self, src, [], constonly=True, **kw)
        self.leaves = []

    def const(self, t=None):
        t = t or self.src.choice(self.types)
        v = interesting(self.src, t)
        s, p = literal(self.src, t, v)
        self.leaves.append((s, t, v))
        return Ex("@%d@" % (len(self.leaves) - 1), P_PRIM, t, v, True)

    def fill(self, text, names=None):
        def f(m):
            i = int(m.group(1))
            if names:
                return names[i]
            s, t, v = self.leaves[i]
            return "(%s)" % s if s[0] in "(-" else s
        return re.sub(r"@(\d+)@", f, text)


class PPGen(CGen):
    """#if expressions: only intmax_t / uintmax_t."""

    def __init__(self, src):
        CGen.__init__(self, src, types=[LONG, ULONG])

    def const(self, t=None):
        src = self.src
        t = src.choice([LONG, LONG, ULONG])
        v = interesting(src, t)
        if v < 0:
            v = -(v + 1)
        k = src.below(5)
        suf = "" if t is LONG else "u"
        if k == 0:
            suf += src.choice(["l", "L", "ll", "LL"])
        base = src.below(4)
        num = ["%d" % v, "0x%X" % v, "0%o" % v, "0b" + bin(v)[2:]][base]
        if t is ULONG and not suf.lower().startswith("u"):
            suf = "u"
        self.leaves.append((num + suf, t, v))
        return Ex(num + suf, P_PRIM, t, v, True)

    def misc_const(self):
        k = self.src.below(5)
        if k == 0:
            return Ex("'%s'" % "a", P_PRIM, LONG, 97, True)
        if k == 1:
            return Ex("undefined_name", P_PRIM, LONG, 0, True)
        if k == 2:
            return Ex("defined DEFD", P_UNARY, LONG, 1, True)
        if k == 3:
            return Ex("defined(NOTDEFD)", P_PRIM, LONG, 0, True)
        return Ex("DEFD", P_PRIM, LONG, 42, True)

    def i2l(self, e):
        if e.t is INT:
            e.t = LONG
        return e

    def binop(self, op, l, r):
        return self.i2l(Gen.binop(self, op, self.i2l(l), self.i2l(r)))

    def cast_to(self, e, t):
        # no casts in #if: adding 0u makes it unsigned
        return Ex("(%s + 0u)" % self.par(e, P_ADD), P_PRIM, ULONG, ULONG.wrap(e.v), True)

    def expr(self, d):
        src = self.src
        if d <= 0:
            return self.leaf()
        k = src.weighted([(8, "leaf"), (40, "bin"), (10, "un"), (9, "cond"), (9, "logic")])
        return self.i2l(getattr(self, "g_" + k)(d))

    def g_cond(self, d):
        c = self.expr(d - 1)
        a, b = self.expr(d - 1), self.expr(d - 1)
        t = common(a.t, b.t)
        return Ex("%s ? %s : %s" % (self.par(c, P_LOR), self.par(a, P_COND), self.par(b, P_COND)), P_COND, t,
                  t.wrap(a.v if c.v else b.v), True)

    def shift(self, op, l, rd):
        src = self.src
        n = src.below(64)
        lv = l.t.wrap(l.v)
        if op == "<<" and l.t.signed and (lv < 0 or (lv << n) > LONG.hi):
            l = self.cast_to(l, ULONG)
            lv = l.v
        v = l.t.wrap(lv << n) if op == "<<" else lv >> n
        return Ex("%s %s %s" % (self.par(l, P_SHIFT), op, str(n) + src.choice(["", "u"])), P_SHIFT, l.t, v, True)


class C02(UnitCheck):
    id = "C02"
    rule = ("each case is one generated constant expression (integer, floating, address or const-object access; depth 1-5) placed in "
            "several constant contexts of one function and also computed at run time from volatile copies of its leaves; #if "
            "expressions use intmax_t arithmetic; non-trivial = the expression has at least one operator")
    batches = {"quick": 1200, "thorough": 15000}
    units_per_batch = 40
    prelude = PRELUDE + CALL_PRELUDE + "#define DEFD 42\nstatic void PT(int t) { printf(\"t%d\\n\", t); }\n" + r'''
static void PF(float x) { u32 u; memcpy(&u, &x, 4); if (x != x) printf("nan\n"); else printf("%x\n", u); }
static void PD(double x) { u64 u; memcpy(&u, &x, 8); if (x != x) printf("nan\n"); else printf("%lx\n", u); }
static void PL(long double x) { u64 u[2] = {0, 0}; memcpy(u, &x, 10); if (x != x) printf("nan\n"); else printf("%lx%016lx\n", u[1], u[0]); }
'''

    san_flags = cc.SAN_FLAGS + ["-fsanitize=float-cast-overflow"]

    def gen_unit(self, src, uid):
        kind = src.weighted([(45, "int"), (20, "pp"), (20, "fp"), (15, "addr"), (15, "cobj"), (12, "cptr")])
        return getattr(self, "u_" + kind)(src, uid)

    def mk(self, uid, g, body, classes, call=None):
        return Unit("%s\nstatic void t_%d(void) {\n%s\n}\n" % ("\n".join(g), uid, "\n".join(body)), "t_%d();" % uid, classes)

    def u_int(self, src, uid):
        gen = CGen(src)
        e = gen.expr(src.range(1, 5))
        if e.p <= P_COMMA:
            e = Ex("(%s)" % e.s, P_PRIM, e.t, e.v)
        ct = gen.fill(e.s)
        g, body = [], []
        names = []
        for i, (s, t, v) in enumerate(gen.leaves):
            nm = "k%d_%d" % (uid, i)
            names.append(nm)
            body.append("volatile %s %s = %s;" % (t.name, nm, literal(src, t, v, True)[0]))
        rt = gen.fill(e.s, names)
        body.append("P(%s);" % rt)
        body.append("PT(%s);" % (TYPEIDX % rt))
        body.append("PT(%s);" % (TYPEIDX % ct))
        v, t = e.v, e.t
        lit = literal(src, t, v, True)[0]
        classes = set(gen.classes)
        for k in range(src.range(2, 5)):
            c = src.choice(["static", "assert", "enum", "array", "case", "bitw", "constexpr", "plain", "if", "cp", "narrow", "agg",
                            "desg", "cond", "local", "fpinit", "ternary", "flip"])
            classes.add("ctx_" + c)
            n = "c%d_%d" % (uid, k)
            if c == "static":
                body.append("{ static %s %s = %s; P(%s); }" % (t.name, n, ct, n))
            elif c == "narrow":
                t2 = src.choice(ITYPES)
                g.append("%s %s = %s;" % (t2.name, n, ct))
                body.append("P(%s);" % n)
            elif c == "fpinit":
                g.append("%s %s = %s;" % (src.choice(["double", "float", "long double"]), n, ct))
                body.append("PD(%s); PL(%s);" % (n, n))
            elif c == "assert":
                g.append("_Static_assert((%s) == %s, \"\");" % (ct, lit))
                body.append("_Static_assert(!((%s) != %s), \"\");" % (ct, lit))
            elif c == "enum":
                if INT.lo <= v <= INT.hi:
                    g.append("enum { %s = %s, %s_b };" % (n, ct, n) if v < INT.hi else "enum { %s = %s };" % (n, ct))
                    body.append("P(%s);" % n + ("P(%s_b);" % n if v < INT.hi else ""))
                else:
                    ut = src.choice([LONG, ULONG]) if v <= LONG.hi and v >= 0 else (LONG if v < 0 else ULONG)
                    g.append("enum E%s : %s { %s = %s };" % (n, ut.name, n, ct))
                    body.append("P(%s);" % n)
            elif c == "array":
                body.append("{ char %s[((%s) & 63) + 1]; P(sizeof %s); }" % (n, ct, n))
            elif c == "case":
                st = src.choice([t, LONG, INT, UINT, ULONG])
                sel = st.wrap(v)
                body.append("{ volatile %s %s = %s; switch (%s) { case (%s)(%s): P(111); break; default: P(222); } }" % (
                    st.name, n, literal(src, st, sel, True)[0], n, st.name, ct))
            elif c == "bitw":
                body.append("{ struct { unsigned m : ((%s) & 31) + 1; } %s = {-1}; P(%s.m); }" % (ct, n, n))
            elif c == "constexpr":
                body.append("{ constexpr %s %s = %s; static %s %s_s = %s; P(%s); P(%s_s); _Static_assert(%s == %s); char a[(%s & 7) + 1]; P(sizeof a); }" % (
                    t.name, n, ct, t.name, n, n, n, n, n, lit, n))
            elif c == "plain":
                body.append("P(%s);" % ct)
            elif c == "if":
                body.append("if (%s) P(1); else P(0);" % ct)
            elif c == "ternary":
                body.append("P((%s) ? 5 : 6); P(!(%s)); P((%s) && 1); P((%s) || 0);" % (ct, ct, ct, ct))
            elif c == "cond":
                body.append("{ int n = 0; while ((%s) && n < 3) n++; P(n); do n++; while (!(%s) && n < 5); P(n); }" % (ct, ct))
            elif c == "cp":
                body.append("P(__builtin_constant_p(%s));" % ct)
            elif c == "agg":
                g.append("struct { %s a; %s b[3]; } %s = {%s, {1, [2] = %s}};" % (src.choice(ITYPES).name, src.choice(ITYPES).name, n, ct, ct))
                body.append("P(%s.a); P(%s.b[0]); P(%s.b[1]); P(%s.b[2]);" % (n, n, n, n))
            elif c == "desg":
                g.append("static short %s[] = {[(%s) & 15] = 7};" % (n, ct))
                body.append("P(sizeof %s); P(%s[(%s) & 15]);" % (n, n, ct))
            elif c == "flip":
                o = src.choice(["+", "^", "-", "&", "|", "<", "==", ">="])
                t2 = src.choice([INT, ULONG, LONG, UINT])
                if o in "+-":
                    t2 = ULONG
                vv = interesting(src, t2)
                body.append("{ volatile %s x = %s; P(x %s (%s)); P((%s) %s x); }" % (t2.name, literal(src, t2, vv, True)[0], o, ct, ct, o))
            elif c == "local":
                body.append("{ %s x = %s; x = %s; P(x); %s y[2] = {%s, %s}; P(y[0] == y[1]); P(y[1]); }" % (t.name, ct, ct, t.name, ct, ct))
        body.append("P(%s);" % lit)
        return self.mk(uid, g, body, classes | {"int"})

    def u_pp(self, src, uid):
        gen = PPGen(src)
        g, body = [], []
        for k in range(src.range(1, 3)):
            e = gen.expr(src.range(1, 5))
            ct = gen.fill(e.s)
            v = e.v
            lit = "%du" % v if e.t is ULONG else ("%d" % v if v >= 0 else "(-%d - 1)" % (-(v + 1)))
            form = src.below(3)
            if form == 2 and "defined" in ct:
                form = 1
            if form == 0:
                g.append("#if %s\nenum { pp%d_%d = 1 };\n#else\nenum { pp%d_%d = 0 };\n#endif" % (ct, uid, k, uid, k))
            elif form == 1:
                g.append("#if 0\n#elif (%s) == %s\nenum { pp%d_%d = 2 };\n#else\nenum { pp%d_%d = 3 };\n#endif" % (ct, lit, uid, k, uid, k))
            else:
                g.append("#define M%d_%d(x) x\n#if M%d_%d((%s)) < %s\nenum { pp%d_%d = 4 };\n#elif M%d_%d((%s)) > %s\nenum { pp%d_%d = 5 };\n#else\nenum { pp%d_%d = 6 };\n#endif" % (
                    uid, k, uid, k, ct.replace("\n", " "), lit, uid, k, uid, k, ct, lit, uid, k, uid, k))
            body.append("P(pp%d_%d);" % (uid, k))
        return self.mk(uid, g, body, {"pp"})

    FT = ["double", "float", "long double"]

    def fleaf(self, src):
        t = src.below(3)
        k = src.below(9)
        if k == 0:
            s = src.choice(["0.0", "1.0", "2.0", "0.5", "3.0", "1e10", "-1.0"])
        elif k == 1:
            s = "%d.%d" % (src.below(1000), src.below(1000))
        elif k == 2:
            s = "%d.%de%d" % (src.below(10), src.bits(30), src.range(-30, 30))
        elif k == 3:
            s = "0x%x.%xp%d" % (src.below(3), src.bits(52), src.range(-20, 20))
        elif k == 4:
            s = src.choice(["4294967295.0", "4294967296.0", "9007199254740993.0", "2147483648.0", "16777217.0", "0.1", "1e-3"])
        elif k == 5:
            s = "%d." % src.bits(20)
        elif k == 6:
            s = ".%d" % src.bits(30)
        elif k == 7:
            s = "1%s.0" % ("0" * src.below(18))
        else:
            it = src.choice([INT, UINT, LONG, ULONG, CHAR, USHORT])
            v = interesting(src, it)
            return literal(src, it, v)[0], it.name
        s = s + ["", "f", "l"][t]
        return ("(%s)" % s if s[0] == "-" else s), self.FT[t]

    def fexpr(self, src, d, leaves):
        if d <= 0:
            s, t = self.fleaf(src)
            leaves.append((s, t))
            return "@%d@" % (len(leaves) - 1)
        k = src.weighted([(4, "leaf"), (40, "bin"), (8, "neg"), (14, "cast"), (8, "cmp"), (6, "cond"), (4, "logic"), (3, "icast")])
        if k == "leaf":
            return self.fexpr(src, 0, leaves)
        if k == "bin":
            op = src.choice(["+", "-", "*", "/"])
            a, b = self.fexpr(src, d - 1, leaves), self.fexpr(src, src.below(d), leaves)
            if op == "/":
                # no integer division: force floating
                return "((%s)(%s) / (%s))" % (src.choice(self.FT), a, b)
            if op in "+-*":
                return "((%s)(%s) %s (%s))" % (src.choice(self.FT), a, op, b)
        if k == "neg":
            return "(-(%s)(%s))" % (src.choice(self.FT), self.fexpr(src, d - 1, leaves))
        if k == "cast":
            return "((%s)(%s))" % (src.choice(self.FT), self.fexpr(src, d - 1, leaves))
        if k == "icast":
            it = src.choice(["int", "unsigned", "long", "unsigned long", "_Bool", "char", "unsigned short"])
            s, t = src.choice(["3.99", "-7.5", "0.25", "100.0f", "65.75l", "126.9f"]), "double"
            if s[0] == "-" and "unsigned" in it:
                s = s[1:]
            t = "float" if s[-1] == "f" else "long double" if s[-1] == "l" else "double"
            leaves.append(("(%s)" % s, t))
            return "((%s)@%d@)" % (it, len(leaves) - 1)
        if k == "cmp":
            return "((%s)(%s) %s (%s))" % (src.choice(self.FT), self.fexpr(src, d - 1, leaves),
                                           src.choice(["<", "<=", ">", ">=", "==", "!="]), self.fexpr(src, d - 1, leaves))
        if k == "logic":
            return "((%s) %s !(%s))" % (self.fexpr(src, d - 1, leaves), src.choice(["&&", "||"]), self.fexpr(src, d - 1, leaves))
        return "((%s) ? (%s) : (%s))" % (self.fexpr(src, d - 1, leaves), self.fexpr(src, d - 1, leaves), self.fexpr(src, d - 1, leaves))

    def u_fp(self, src, uid):
        leaves = []
        e = self.fexpr(src, src.range(1, 4), leaves)
        ct = re.sub(r"@(\d+)@", lambda m: leaves[int(m.group(1))][0], e)
        rt = re.sub(r"@(\d+)@", lambda m: "f%d_%s" % (uid, m.group(1)), e)
        g, body = [], []
        for i, (s, t) in enumerate(leaves):
            body.append("volatile %s f%d_%d = %s;" % (t, uid, i, s))
        body.append("PL(%s); PD(%s);" % (rt, rt))
        body.append("PT(%s); PT(%s);" % (TYPEIDX % ct, TYPEIDX % rt))
        for k in range(src.range(2, 4)):
            n = "c%d_%d" % (uid, k)
            c = src.choice(["static", "plain", "agg", "constexpr", "local", "if", "assert", "loc2"])
            t = src.choice(self.FT)
            if c == "static":
                g.append("%s %s = %s;" % (t, n, ct))
                body.append("PL(%s);" % n)
            elif c == "plain":
                body.append("PL(%s); PF(%s);" % (ct, ct))
            elif c == "agg":
                g.append("static struct { char c; %s a[2]; } %s = {1, {%s, %s}};" % (t, n, ct, ct))
                body.append("PL(%s.a[0]); PD(%s.a[1]);" % (n, n))
            elif c == "constexpr":
                body.append("{ constexpr long double %s = %s; static const long double s = %s; PL(%s); PL(s); }" % (n, ct, n, n))
            elif c == "local":
                body.append("{ %s x = %s; PL(x); x += %s; PL(x); }" % (t, ct, ct))
            elif c == "if":
                body.append("if (%s) P(1); else P(0); P(!(%s));" % (ct, ct))
            elif c == "assert":
                body.append("{ volatile %s x = %s; P(x == (%s)(%s)); P(x < (%s)); }" % (t, rt, t, ct, ct))
            else:
                body.append("{ volatile %s x = %s; PL(x + (%s)); PL((%s) - x); PL(x * (%s)); }" % (t, self.fleaf(src)[0], ct, ct, ct))
        return self.mk(uid, g, body, {"fp"})

    def u_addr(self, src, uid):
        """Address constants and offsets."""
        g, body = [], []
        et = src.choice(["int", "char", "short", "long", "double"])
        n1, n2 = src.range(2, 5), src.range(2, 6)
        g.append("typedef struct A%d { char c; %s m[%d][%d]; struct { short x; %s y[3]; } in; struct A%d *nx; } A%d;" % (
            uid, et, n1, n2, et, uid, uid))
        g.append("static A%d a%d[4]; %sint fn%d(void) { return %d; } char str%d[] = \"hello world\";" % (
            uid, uid, src.choice(["static ", ""]), uid, uid, uid))
        A = "a%d" % uid
        i = src.below(4)
        lits = []
        for k in range(src.range(2, 6)):
            n = "p%d_%d" % (uid, k)
            x, y = src.below(n1), src.below(n2)
            exprs = [
                "&%s[%d].m[%d][%d]" % (A, i, x, y),
                "%s[%d].m[%d] + %d" % (A, i, x, y),
                "&%s[%d].in.y[%d]" % (A, i, src.below(3)),
                "*(%s[%d].m + %d) + %d" % (A, i, x, y),
                "&(%s + %d)->m[%d][%d] - %d" % (A, i, x, y, y),
                "(%s *)((char *)&%s[%d] + __builtin_offsetof(A%d, in.y[1]))" % (et, A, i, uid),
                "&(*(&%s[%d])).m[0][%d]" % (A, i, y),
                "&*&%s[%d].m[%d][%d] + %d" % (A, i, x, y, src.below(3)),
                "(%s *)(void *)(%s + %d)" % (et, A, i),
                "(%s *)(1 ? %s + %d : %s)" % (et, A, i, A),
                "&%d[%s[%d].m[%d]]" % (y, A, i, x),
                "%s[1 + %d - 1].m[%d]" % (A, i, x),
                "(*%s[%d].m) + %d" % (A, i, y),
                "%s->m[%d] + %d" % (A, x, y),
                "(%s *)&%s[%d].nx" % (et, A, i),
                "&(%s[%d].m[%d])[%d]" % (A, i, x, y),
            ]
            ex = src.choice(exprs)
            g.append("%s%s *%s = %s;" % (src.choice(["static ", "", "const "]), et, n, ex))
            body.append("P((char *)%s - (char *)%s); { %s *q = %s; P((char *)q - (char *)%s); P(q == %s); }" % (n, A, et, ex, A, n))
        k = src.below(10)
        n = "q%d" % uid
        if k == 0:
            g.append("int (*%s)(void) = fn%d; int (*%sb[2])(void) = {0, &fn%d};" % (n, uid, n, uid))
            body.append("P(%s()); P(%sb[1] == %s); P((*%sb[1])());" % (n, n, n, n))
        elif k == 1:
            g.append("char *%s = str%d + %d, *%sb = &str%d[11] - %d, *%sc = \"lit%d\" + 2;" % (n, uid, src.below(11), n, uid, src.below(11), n, uid))
            body.append("printf(\"%%s|%%s|%%s\\n\", %s, %sb, %sc);" % (n, n, n))
        elif k == 2:
            g.append("u64 %s = (u64)&%s[2].m[1]; i64 %sb = (i64)(%s + 1) + 5; u64 %sc = 3 + (u64)&%s[1];" % (n, A, n, A, n, A))
            body.append("P(%s - (u64)%s); P(%sb - (i64)%s); P(%sc - (u64)%s);" % (n, A, n, A, n, A))
        elif k == 3:
            g.append("struct { int a; A%d *p; char *s; } %s[] = {{1, %s + 2, \"xy\"}, {.p = &%s[3]}};" % (uid, n, A, A))
            body.append("P(%s[0].p - %s); printf(\"%%s\\n\", %s[0].s); P(%s[1].p - %s); P(!%s[1].s);" % (n, A, n, n, A, n))
        elif k == 4:
            body.append("static _Bool z = %s, z3 = str%d; P(z); P(z3);" % (A, uid))
        elif k == 5:
            body.append("P(__builtin_offsetof(A%d, m[1][%d])); P((u64)&((A%d *)0)->in.y[2]); static u64 o = __builtin_offsetof(A%d, in.x) * 3; P(o);" % (
                uid, src.below(n2), uid, uid))
            body.append("enum { o2 = __builtin_offsetof(A%d, nx) }; P(o2); char z[__builtin_offsetof(A%d, in)]; P(sizeof z);" % (uid, uid))
        elif k == 6:
            g.append("A%d *%s = &(A%d){.c = 5, .in.y = {1, 2, 3}}; int *%sb = (int[]){4, 5, 6} + 1;" % (uid, n, uid, n))
            body.append("P(%s->c); P((i64)%s->in.y[2]); P(%sb[0]); P(%sb[-1]); P(%sb[1]);" % (n, n, n, n, n))
        elif k == 7:
            body.append("static int off = (char *)&((A%d *)64)->in - (char *)64; P(off);" % uid) if False else body.append(
                "static const char *const tbl[] = {[2] = \"two\", [0] = str%d + 3}; printf(\"%%s %%s %%d\\n\", tbl[0], tbl[2], !tbl[1]);" % uid)
        elif k == 8:
            g.append("extern int ex%d[]; int *%s = ex%d + 3; int ex%d[5] = {1, 2, 3, 4, 5};" % (uid, n, uid, uid))
            body.append("P(*%s);" % n)
        else:
            body.append("l1: l2:; static void *lt[] = {&&l1, &&l2 + 0, 0}; P(lt[0] == lt[1]); P(!lt[2]);")
        return self.mk(uid, g, body, {"addr"})

    def u_cobj(self, src, uid):
        """Accesses to const and constexpr objects that the compiler may fold."""
        g, body = [], []
        t = src.choice(ITYPES)
        t2 = src.choice(ITYPES)
        n = src.range(2, 5)
        vals = [interesting(src, t) for _ in range(n)]
        lits = [literal(src, t, v, True)[0] for v in vals]
        where = src.below(2)
        st = src.choice(["static const", "const", "static const volatile", "const"]) if where == 0 else src.choice(["static const", "const"])
        w = src.range(1, t2.bits) if not t2.boolean else 1
        bfv = interesting(src, t2)
        decl = ["%s %s arr%d[%d] = {%s};" % (st, t.name, uid, n, ", ".join(lits)),
                "%s struct S%d { %s a; %s b : %d; %s c[2]; float f; union { u32 u; i16 s; u8 b[4]; } un; double d; } s%d = {%s, %s, {1, %s}, 1.5f, {0x%x}, -2.25};" % (
                    st, uid, t.name, t2.name, w, t.name, uid, lits[0], literal(src, t2, bfv, True)[0], lits[1], src.bits(32)),
                "%s %s sc%d = %s;" % (st, t.name, uid, lits[1]),
                "%s long double ld%d = 1.1l; %s double dd%d = 0.1; %s float ff%d = 0.1f;" % (st, uid, st, uid, st, uid),
                "%s char str%d[] = \"ab\\xffz\";" % (st, uid)]
        (g if where == 0 else body).extend(decl)
        i = src.below(n)
        x = interesting(src, t2)
        body.append("volatile %s x = %s; volatile int i = %d;" % (t2.name, literal(src, t2, x, True)[0], i))
        A, S, C = "arr%d" % uid, "s%d" % uid, "sc%d" % uid
        exprs = ["%s[%d]" % (A, i), "%s[i]" % A, "*(%s + %d)" % (A, i), "%s.a" % S, "%s.b" % S, "%s.c[1]" % S, "%s.c[i & 1]" % S,
                 "%s" % C, "(%s ? 3 : 4)" % C, "(%s == %s)" % (C, lits[1]), "%s.un.u" % S, "%s.un.s" % S, "%s.un.b[%d]" % (S, src.below(4)),
                 "(&%s)->a" % S, "(int)%s.f" % S, "(long)(%s.d * 4)" % S, "(dd%d + ff%d == 0.2)" % (uid, uid), "(ld%d > 1)" % uid,
                 "str%d[%d]" % (uid, src.below(5)), "sizeof %s" % A, "(int)(ff%d * 10)" % uid, "(u8)%s" % C, "(i64)%s.a" % S, "-(i64)%s" % C,
                 "(%s.b & 3)" % S, "!%s.b" % S, "*&%s" % C, "*(const u8 *)&%s" % C, "((const u8 *)&%s)[0]" % A, "(short)%s[%d]" % (A, i),
                 "*(%s.c + 1)" % S, "(&%s[1])[-1]" % A, "*((const %s *)&%s + 0)" % (t.name, S) if t is not BOOL else "1"]
        for k in range(src.range(3, 8)):
            ex = src.choice(exprs)
            f = src.below(7)
            if f <= 1:
                body.append("P(%s);" % ex)
            elif f == 2:
                body.append("if (%s) P(1); else P(2);" % ex)
            elif f == 3:
                body.append("{ %s y = %s; P(y); }" % (src.choice(ITYPES).name, ex))
            elif f == 4:
                body.append("P((u64)x %s (u64)%s);" % (src.choice(["+", "-", "*", "^", "&", "|"]), ex))
            elif f == 5:
                body.append("P(x %s %s);" % (src.choice(["<", "==", ">=", "!="]), ex))
            else:
                body.append("P(%s %s %s);" % (ex, src.choice(["<", "==", "&&", "||", "^"]), src.choice(exprs)))
        body.append("PL(ld%d); PD(dd%d); PF(ff%d); PD(%s.d); PF(%s.f); PL(dd%d + 1);" % (uid, uid, uid, S, S, uid))
        if src.chance(40) and where == 0 or src.chance(20):
            ce = "constexpr %s ce%d = %s; constexpr double cd%d = 0.1;" % (t.name, uid, lits[0], uid)
            (g if where == 0 else body).append(ce)
            body.append("static %s sv = ce%d; P(sv); static double sd = cd%d * 3; PD(sd); P(ce%d ? 1 : 2); enum { q = (int)ce%d }; P(q);" % (
                t.name, uid, uid, uid, uid) if INT.lo <= vals[0] <= INT.hi else "static %s sv = ce%d; P(sv);" % (t.name, uid))
        return self.mk(uid, g, body, {"cobj"})

    def u_cptr(self, src, uid):
        """Const objects that hold addresses next to plain numbers: what the compiler folds of them must not lose the address."""
        g, body = [], []
        nt = src.range(1, 3)
        for j in range(nt):
            g.append("%sint tg%d_%d[4] = {%d, %d, %d, %d};" % (src.choice(["static ", "", "static const "]), uid, j, *[src.range(1, 9999) for _ in range(4)]))
        fields, inits, info = [], [], []
        arr = src.chance(35)
        aty = src.choice(["p", "u"])
        for i in range(src.range(2, 6)):
            k = aty if arr else src.weighted([(4, "p"), (3, "u"), (2, "i"), (1, "c"), (2, "l"), (1, "s")])
            nul = src.chance(15)
            j, o = src.below(nt), src.below(4)
            if k == "p":
                fields.append("const int *m%d;" % i)
                inits.append("0" if nul else "(const int *)&tg%d_%d[%d]" % (uid, j, o))
            elif k == "u":
                v = src.below(100)
                fields.append("u64 m%d;" % i)
                inits.append("%d" % v if nul else "(u64)&tg%d_%d[%d]" % (uid, j, o))
            elif k == "s":
                fields.append("const char *m%d;" % i)
                inits.append("0" if nul else '"str%d"' % i)
            else:
                v = src.range(-100, 100)
                fields.append({"i": "int", "c": "char", "l": "i64"}[k] + " m%d;" % i)
                inits.append("%d" % v)
                nul = True
            info.append((k, nul, j, o, i, inits[-1]))
        n = "ob%d" % uid
        st = src.choice(["static const", "const", "static const"])
        if arr:
            d = "%s %s %s[%d] = {%s};" % (st.replace("const", ""), "const int *const" if aty == "p" else "const u64", n, len(inits), ", ".join(inits))
        else:
            d = "%s struct T%d { %s } %s = {%s};" % (st, uid, " ".join(fields), n, ", ".join(inits))
        local = src.chance(30)
        (body if local else g).append(d)
        if local:
            body[0] = "static " + d.replace("static ", "", 1) if src.chance(50) else d
        body.append("volatile u64 x = %d;" % src.below(3))
        for _ in range(src.range(3, 8)):
            k, nul, j, o, i, ini = src.choice(info)
            a = src.choice(["%s[%d]" % (n, i), "*(%s + %d)" % (n, i)]) if arr else src.choice(["%s.m%d" % (n, i), "(&%s)->m%d" % (n, i)])
            f = src.below(9)
            if f == 0:
                body.append("if (%s) P(1); else P(2);" % a)
            elif f == 1:
                body.append("P(%s ? 3 : 4); P(!%s); P(%s && x == 1);" % (a, a, a))
            elif f == 2:
                body.append("P((u64)%s - (u64)%s + x);" % (a, "tg%d_%d" % (uid, j) if not nul else "5") if k != "s" else "P((u64)%s != 0);" % a)
            elif f == 3 and k in "pu":
                body.append("P((u64)%s == (u64)(%s)); P(((u64)%s ^ (u64)(%s)) + 7);" % (a, ini, a, ini))
            elif f == 4 and k in "pu" and not nul:
                body.append("P(*(const int *)%s);" % a)
            elif f == 5:
                body.append("{ u64 y = (u64)%s; y -= (u64)%s; P(y); }" % (a, ini) if k in "puilc" else "{ const char *y = %s; if (y) printf(\"%%s\\n\", y); else P(0); }" % a)
            elif f == 6:
                body.append("{ _Bool b = %s; P(b); while (!%s) { P(9); break; } }" % (a, a))
            elif f == 7:
                body.append("P(((u64)%s >> 63) + ((u64)%s != 0)); P((u8)(u64)%s == (u8)(u64)%s);" % (a, a, a, ini) if k in "puilc" else "P(1);")
            else:
                body.append("switch (%s != 0) { case 0: P(10); break; default: P(11); } P(x + (%s != 0));" % (a, a))
        if src.chance(40) and not local:
            g.append("static u64 wk%d(void) { const volatile u8 *p = (const volatile u8 *)&%s; u64 s = 0; for (unsigned i = 0; i < sizeof %s; i++) s += p[i] != 0; return s > 0; }" % (uid, n, n))
            body.append("P(wk%d());" % uid)
            body.append("P(((const u8 *)&%s)[%d] == *(const volatile u8 *)((const volatile u8 *)&%s + %d));" % (n, 0, n, 0))
            k8 = src.below(8 * len(inits) if arr else 8)
            body.append("P(((const u8 *)&%s)[%d] == *((const volatile u8 *)&%s + %d));" % (n, k8 if arr else 0, n, k8 if arr else 0))
        return self.mk(uid, g, body, {"cptr"})


CHECK = C02()
