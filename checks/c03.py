"""C03: floating-point arithmetic, comparison and conversion, bit for bit."""
import struct
from lib.diff import UnitCheck, Unit, PRELUDE
from lib.cexpr import ITYPES, INT, UINT, LONG, ULONG, CHAR, UCHAR, SHORT, USHORT, SCHAR, BOOL, LLONG, ULLONG, interesting, literal
from lib import cc

FPRELUDE = r'''
static void PF(float x) { u32 u; memcpy(&u, &x, 4); if (x != x) printf("nan\n"); else printf("%x\n", u); }
static void PD(double x) { u64 u; memcpy(&u, &x, 8); if (x != x) printf("nan\n"); else printf("%lx\n", u); }
static void PL(long double x) { u64 u[2] = {0, 0}; memcpy(u, &x, 10); if (x != x) printf("nan\n"); else printf("%lx%016lx\n", u[1], u[0]); }
static float id_f(float x) { return x; } static double id_d(double x) { return x; } static long double id_l(long double x) { return x; }
static float (*pid_f)(float) = id_f; static double (*pid_d)(double) = id_d; static long double (*pid_l)(long double) = id_l;
static double mixd(int a, double b, float c, long double d, long e, double f) { return a + b * 2 - c / 4 + (double)d * e - f; }
static long double mixl(long double a, float b, long double c, char d, double e) { return a - b + c * d - e; }
static float mixf(float a, float b, float c, float d, float e, float f, float g, float h, float i, float j) { return a - b * c + d - e * f + g - h * i + j; }
#define CL(x, lo, hi) ((x) > (lo) && (x) < (hi) ? (x) : 1)
'''
F = {"f": "float", "d": "double", "l": "long double"}
PFN = {"f": "PF", "d": "PD", "l": "PL"}
LIM = {BOOL: (-1e30, 1e30), CHAR: (-129, 128), SCHAR: (-129, 128), UCHAR: (-1, 256), SHORT: (-32769, 32768), USHORT: (-1, 65536),
       INT: (-2147483648.0, 2147483648.0), UINT: (-1, 4294967296.0), LONG: (-9223372036854775808.0, 9223372036854775808.0),
       LLONG: (-9223372036854775808.0, 9223372036854775808.0), ULONG: (-1, 18446744073709551616.0), ULLONG: (-1, 18446744073709551616.0)}


def fnum(src):
    """A decimal or hexadecimal spelling (no suffix) of a non-negative number."""
    k = src.below(16)
    if k == 0:
        return src.choice(["0.0", "1.0", "2.0", "0.5", "3.0", "10.0", "1.5", "0.1", "0.25"])
    if k == 1:
        return "%d.%d" % (src.below(1000), src.below(1000))
    if k == 2:
        return "%d.%de%d" % (src.below(10), src.bits(40), src.range(-37, 37))
    if k == 3:
        return "0x%x.%xp%d" % (src.below(3), src.bits(52), src.range(-60, 60))
    if k == 4:
        return src.choice(["4294967295.0", "4294967296.0", "9007199254740993.0", "2147483648.0", "16777217.0", "2147483647.0",
                           "9223372036854775808.0", "9223372036854775807.0", "18446744073709551615.0", "18446744073709551616.0",
                           "9223372036854774784.0", "9223373136366403584.0", "127.5", "128.0", "255.99", "32767.9", "65535.5"])
    if k == 5:
        return "%d." % src.bits(24)
    if k == 6:
        return ".%d" % src.bits(30)
    if k == 7:
        return src.choice(["1e-45", "1.4e-45", "1e-38", "1.1754943508222875e-38", "3.4028234663852886e38", "5e-324", "2.2250738585072014e-308",
                           "1.7976931348623157e308", "1e-310", "1e-4940", "1e4000", "3.3621e-4932"])
    if k == 8:
        return "0x1.%xp%d" % (src.bits(60), src.range(-140, 120))
    if k == 9:
        return "0x%x.8p0" % src.bits(24)
    if k == 10:
        # halfway cases for float and double
        if src.below(2):
            return "0x1.%06x%sp%d" % ((src.bits(23) << 1) | 1, src.choice(["", "00000001", "00000000000001"]), src.range(-10, 40))
        return "0x1.%013x%sp%d" % (src.bits(52), src.choice(["8", "80000001", "7ffffff", "80000000000001"]), src.range(-10, 60))
    if k == 11:
        return "%d%s%d.%de%d" % (src.bits(40), "", src.bits(40), src.bits(40), src.range(-300, 270))
    if k == 12:
        return "%de%d" % (src.below(10000), src.range(-300, 300))
    if k == 13:
        return "%d.%s%d" % (src.below(100), "0" * src.below(30), src.bits(20))
    if k == 14:
        return "%d'%03d.%d" % (src.below(1000), src.below(1000), src.below(100))
    return "0X%X.%XP+%d" % (src.bits(20), src.bits(20), src.below(20))


def flit(src, t):
    """A finite literal of type t; large exponents only where they do not overflow."""
    s = fnum(src)
    if t != "l" and s in ("1e-4940", "1e4000", "3.3621e-4932"):
        s = "7.25"
    if t == "f" and ("e" in s and "0x" not in s):
        try:
            if float(s.replace("'", "")) > 3e38:
                s = "3.4e38"
        except (ValueError, OverflowError):
            pass
    if t == "d" and "e" in s and "0x" not in s and float(s.replace("'", "")) == float("inf"):
        s = "1.5e308"
    if t == "f" and "'" not in s and "0x" not in s.lower() and float(s) > 3.4e38:
        s = "1e38"
    return s + {"f": src.choice("fF"), "d": "", "l": src.choice("lL")}[t]


def rounding_int(src):
    """An integer at or next to the midpoint of two neighbouring float or double values."""
    prec = src.choice([24, 53])
    top = src.range(prec + 1, 63)
    m = (1 << prec - 1) | src.bits(prec - 1)
    sh = top + 1 - prec
    v = (m << sh) | (1 << sh - 1)
    k = src.below(5)
    if k == 0:
        v += 1
    elif k == 1:
        v -= 1
    elif k == 2 and sh >= 3:
        v += 1 << src.below(sh - 2)
    elif k == 3 and sh >= 3:
        v -= 1 << src.below(sh - 2)
    return v


def special(src, t):
    """Initialiser text of a special or ordinary value of type t."""
    k = src.below(12)
    F_ = F[t]
    if k == 0:
        return "(%s)__builtin_nan_()" % F_ if False else "(%s)(ZERO / ZERO)" % F_
    if k == 1:
        return "(%s)(1 / ZERO)" % F_
    if k == 2:
        return "(%s)(-1 / ZERO)" % F_
    if k == 3:
        return "-0.0" + {"f": "f", "d": "", "l": "l"}[t]
    if k == 4:
        return "(%s)0" % F_
    if k in (5, 6):
        it = src.choice(ITYPES)
        if k == 6:
            return "(%s)%dul" % (F_, rounding_int(src) | src.below(2) << 63)
        return "(%s)%s" % (F_, literal(src, INT if it.rank < 3 else it, interesting(src, it), True)[0])
    s = flit(src, t)
    return "-" + s if src.chance(30) else s


class FG:
    """Text generator of floating expressions; kinds: f d l i(nteger)."""

    def __init__(self, src, vars):
        self.src, self.vars, self.classes, self.mods = src, vars, set(), []

    def leaf(self, k=None):
        src = self.src
        if src.chance(25):
            t = src.choice("fdl")
            self.classes.add("lit")
            return flit(src, t), t
        c = [v for v in self.vars if k is None or v[1] == k] or self.vars
        return src.choice(c)[:2]

    def ct(self, a, b):
        for t in "ldf":
            if t in (a, b):
                return t
        return "i"

    def expr(self, d):
        src = self.src
        if d <= 0:
            return self.leaf()
        k = src.weighted([(6, "leaf"), (40, "bin"), (8, "neg"), (14, "cast"), (8, "cmp"), (7, "cond"), (4, "logic"), (6, "toint"), (8, "call"), (3, "comma"), (3, "stmt")])
        self.classes.add(k)
        if k == "leaf":
            return self.leaf()
        if k == "bin":
            a, ta = self.expr(d - 1)
            b, tb = self.expr(src.below(d))
            if src.chance(40):
                a, ta, b, tb = b, tb, a, ta
            t = self.ct(ta, tb)
            if t == "i":
                a, t = "(%s)(%s)" % (F[src.choice("fdl")], a), None
                t = {"fl": "f", "do": "d", "lo": "l"}[a[1:3]]
            return "((%s) %s (%s))" % (a, src.choice(["+", "-", "*", "/", "+", "-", "*"]), b), t
        if k == "neg":
            a, t = self.expr(d - 1)
            if t == "i":
                return "(!(%s))" % a, "i"
            return src.choice(["(-(%s))", "(+(%s))", "(-(%s))"]) % a, t
        if k == "cast":
            a, t = self.expr(d - 1)
            t2 = src.choice("fdl")
            return "((%s)(%s))" % (F[t2], a), t2
        if k == "cmp":
            a, ta = self.expr(d - 1)
            b, tb = self.expr(src.below(d))
            return "((%s) %s (%s))" % (a, src.choice(["<", "<=", ">", ">=", "==", "!="]), b), "i"
        if k == "cond":
            c = self.expr(d - 1)[0]
            a, ta = self.expr(d - 1)
            b, tb = self.expr(d - 1)
            if src.chance(15):
                return "((%s) ?: (%s))" % (a, b), self.ct(ta, tb)
            return "((%s) ? (%s) : (%s))" % (c, a, b), self.ct(ta, tb)
        if k == "logic":
            return "((%s) %s (%s))" % (self.expr(d - 1)[0], src.choice(["&&", "||"]), self.expr(d - 1)[0]), "i"
        if k == "toint":
            a, t = self.leaf(src.choice("fdl")) if src.chance(60) else self.expr(min(d - 1, 1))
            it = src.choice(ITYPES)
            if it is BOOL:
                return "((_Bool)(%s))" % a, "i"
            lo, hi = LIM[it]
            return "((%s)CL((%s), %r, %r))" % (it.name, a, lo, hi), "i"
        if k == "call":
            q = src.below(6)
            if q == 0:
                return "mixd(%s, %s, %s, %s, %s, %s)" % ("3", self.expr(d - 1)[0], self.leaf()[0], self.leaf()[0], "-7", self.leaf()[0]), "d"
            if q == 1:
                return "mixl(%s, %s, %s, %s, %s)" % (self.leaf()[0], self.expr(d - 1)[0], self.leaf()[0], "5", self.leaf()[0]), "l"
            if q == 2:
                return "mixf(%s)" % ", ".join(self.leaf()[0] for _ in range(10)), "f"
            t = src.choice("fdl")
            return "%sid_%s(%s)" % (src.choice(["", "p"]), t, self.expr(d - 1)[0]), t
        if k == "comma":
            b, t = self.expr(d - 1)
            return "((%s), (%s))" % (self.expr(d - 1)[0], b), t
        t = src.choice("fdl")
        return "({ %s se = %s; se %s %s; })" % (F[t], self.expr(d - 1)[0], src.choice("+-*"), self.leaf(t)[0]), self.ct(t, "l") if False else "?"


class C03(UnitCheck):
    id = "C03"
    rule = ("each case is one generated function over float/double/long double and integer objects holding special and random "
            "values, evaluating floating expression trees, all comparison contexts, conversions between all type pairs, compound "
            "assignments, increments and literals; results compared as bit patterns (any NaN equals any NaN); non-trivial = at "
            "least one floating operator or conversion is executed")
    batches = {"quick": 900, "thorough": 15000}
    prelude = PRELUDE + "static double ZERO = 0;\n" + FPRELUDE
    units_per_batch = 40
    san_flags = cc.SAN_FLAGS + ["-fsanitize=float-cast-overflow"]
    assumptions = ["-O0 code of gcc 13 and clang 18, and gcc -O2 with contraction off, agree on every reported result",
                   "NaN payload and sign are not compared", "rounding mode is the default"]

    def gen_unit(self, src, uid):
        k = src.weighted([(45, "expr"), (25, "conv"), (15, "cmp"), (8, "lit"), (12, "asg"), (6, "deep")])
        return getattr(self, "u_" + k)(src, uid)

    def mkvars(self, src, uid, n):
        g, l, vs = [], [], []
        for i in range(n):
            t = src.choice("fdl")
            nm = "v%d_%d" % (uid, i)
            init = special(src, t)
            f = src.below(7)
            T_ = F[t]
            if f == 0:
                g.append("%s %s;" % (T_, nm))
                l.append("%s = %s;" % (nm, init))
                vs.append((nm, t))
            elif f == 1:
                l.append("struct { char c; %s m; int k; } %s = {.m = %s};" % (T_, nm, init))
                vs.append((nm + ".m", t))
            elif f == 2:
                l.append("%s %s_a[3] = {0, %s}; %s *%s = %s_a;" % (T_, nm, init, T_, nm, nm))
                vs.append(("%s[1]" % nm, t))
            elif f == 3:
                l.append("volatile %s %s = %s;" % (T_, nm, init))
                vs.append((nm, t))
            elif f == 4:
                l.append("static %s %s; %s = %s; %s *%s_p = &%s;" % (T_, nm, nm, init, T_, nm, nm))
                vs.append(("*%s_p" % nm, t))
            else:
                l.append("%s %s = %s;" % (T_, nm, init))
                vs.append((nm, t))
        for i in range(src.range(1, 3)):
            it = src.choice(ITYPES)
            nm = "i%d_%d" % (uid, i)
            l.append("%s%s %s = %s;" % (src.choice(["", "volatile "]), it.name, nm, literal(src, it, interesting(src, it), True)[0]))
            vs.append((nm, "i"))
        return g, l, vs

    def mk(self, uid, g, l, body, classes):
        return Unit("\n".join(g) + "\nstatic void t_%d(void) {\n%s\n%s\n}\n" % (uid, "\n".join(l), "\n".join(body)), "t_%d();" % uid, classes)

    def show(self, src, e, t):
        if t == "i":
            return "P(%s);" % e
        if t == "?":
            return "PL(%s);" % e
        k = src.below(5)
        if k == 0:
            return "PL(%s); PD(%s);" % (e, e)
        if k == 1:
            t2 = src.choice("fdl")
            return "{ %s r = %s; PL(r); }" % (F[t2], e)
        return "%s(%s);" % (PFN[t], e)

    def u_expr(self, src, uid):
        g, l, vs = self.mkvars(src, uid, src.range(2, 6))
        fg = FG(src, vs)
        body = []
        for _ in range(src.range(1, 4)):
            e, t = fg.expr(src.range(1, 4))
            c = src.below(8)
            if c < 5:
                body.append(self.show(src, e, t))
            elif c == 5:
                body.append("if (%s) P(1); else P(2);" % e)
            elif c == 6:
                body.append("P(!(%s)); P((%s) ? 4 : 5); P((_Bool)(%s));" % (e, e, e))
            else:
                body.append("{ int n = 0; while (%s) { if (++n > 2) break; } P(n); for (n = 0; n < 2 && (%s); n++); P(n); }" % (e, e))
        return self.mk(uid, g, l, body, fg.classes | {"expr"})

    def u_conv(self, src, uid):
        body, classes = [], {"conv"}
        for k in range(src.range(2, 6)):
            dirn = src.below(4)
            n = "c%d" % k
            if dirn == 0:       # integer -> float
                it = src.choice(ITYPES)
                v = interesting(src, it)
                if src.chance(35):
                    it = src.choice([LONG, ULONG, ULONG, LLONG, ULLONG, INT, UINT])
                    v = it.wrap(rounding_int(src) >> (0 if it.bits == 64 else 32))
                    if src.chance(50) and it in (ULONG, ULLONG):
                        v |= 1 << 63
                body.append("{ volatile %s %s = %s; %s x = %s; PL(x); PF(%s); PD((double)%s); PL((long double)%s + 0.5l); PF(1.0f * %s); PD(%s / 3.0); PL((float)%s); }" % (
                    it.name, n, literal(src, it, v, True)[0], F[src.choice("fdl")], n, n, n, n, n, n, n))
                classes.add("i2f_" + it.name)
            elif dirn == 1:     # float -> integer, in range by construction
                it = src.choice(ITYPES)
                t = src.choice("fdl")
                v = interesting(src, it)
                fr = src.choice([0, 0.25, 0.5, 0.75])
                if t == "l":
                    s = "%d.%02d" % (abs(v), int(fr * 100)) if abs(v) < 1 << 62 else "%d.0" % abs(v)
                    s = ("-" if v < 0 else "") + s + "l"
                    if v == -(1 << 63):
                        s = "-9223372036854775808.0l"
                else:
                    x = float(v) + (fr if v >= 0 else -fr)
                    if t == "f":
                        x = struct.unpack("f", struct.pack("f", x))[0]
                    if not (it.lo - 1 < x < it.hi + 1) or int(x) < it.lo or int(x) > it.hi:
                        x = float(it.hi // 2)
                        if t == "f":
                            x = struct.unpack("f", struct.pack("f", float(it.hi // 2 & ~0xff)))[0]
                    s = x.hex() if abs(x) >= 1 else repr(x)
                    s += "f" if t == "f" else ""
                    if s.endswith("f") and t == "d":
                        s = s
                body.append("{ volatile %s %s = %s; P((%s)%s); { %s y = %s; P(y); } P((u64)(%s)%s + 1); if ((%s)%s) P(1); else P(2); P(%s ? 3 : 4); }" % (
                    F[t], n, s, it.name, n, it.name, n, it.name, n, it.name, n, n))
                if it in (UCHAR, USHORT, CHAR, SHORT, SCHAR, UINT) and src.chance(50):
                    body.append("{ %s y = 0; %s %s = %s; y += %s; P(y); %s a[2] = {%s, 1}; P(a[0]); }" % (it.name, F[t], n, s, n, it.name, n))
                classes.add("f2i_" + it.name)
            elif dirn == 2:     # between floats
                a, b = src.choice("fdl"), src.choice("fdl")
                body.append("{ volatile %s %s = %s; %s y = %s; PL(y); PL((%s)%s); PF(%s); PD(%s); PL((long double)(float)%s); PD((double)(float)%s); }" % (
                    F[a], n, special(src, a), F[b], n, F[b], n, n, n, n, n))
                classes.add("f2f_%s%s" % (a, b))
            else:               # pairs through int and back
                it = src.choice([INT, UINT, LONG, ULONG, SHORT, UCHAR])
                t = src.choice("fdl")
                lo, hi = LIM[it]
                body.append("{ %s %s = %s; %s i = (%s)CL(%s, %r, %r); P(i); PL((%s)i); PL(%s - (%s)i); P((int)((%s)i == %s)); }" % (
                    F[t], n, special(src, t), it.name, it.name, n, lo, hi, F[t], n, F[t], F[t], n))
        return self.mk(uid, [], [], body, classes)

    def u_cmp(self, src, uid):
        a, b = src.choice("fdl"), src.choice("fdli")
        x = special(src, a)
        y = special(src, b) if b != "i" else None
        l = ["%s x = %s;" % (F[a], x)]
        if b == "i":
            it = src.choice(ITYPES)
            l.append("%s y = %s;" % (it.name, literal(src, it, interesting(src, it), True)[0]))
        else:
            l.append("%s y = %s;" % (F[b], "(%s)x" % F[b] if src.chance(30) else y))
        body = []
        for _ in range(src.range(2, 7)):
            op = src.choice(["<", "<=", ">", ">=", "==", "!="])
            p, q = ("x", "y") if src.below(2) else ("y", "x")
            if src.chance(20):
                q = src.choice(["x", "0", "1.5", "0.0f", "-x", "x + 1"])
            c = "%s %s %s" % (p, op, q)
            f = src.below(12)
            body.append([
                "P(%s);" % c, "if (%s) P(1); else P(2);" % c, "if (!(%s)) P(1); else P(2);" % c, "P(!(%s));" % c,
                "P((%s) ? 5 : 6);" % c, "{ int n = 0; while (%s) if (++n > 1) break; P(n); }" % c,
                "P((%s) && x != 7); P((%s) || x == 7);" % (c, c), "if ((%s) && (%s)) P(1); else P(2);" % (c, c.replace(op, src.choice(["<", "!=", ">="]))),
                "if (!(%s) || !(x == x)) P(1); else P(2);" % c, "P(!!(%s)); P(!x); P(x ? 1 : 2); if (x) P(3); if (!x) P(4); P(x && y); P(x || y); P(!x || !y);" % c,
                "{ _Bool k = %s; P(k); k = x; P(k); }" % c, "{ int n = 3; do { if (!--n) break; } while (%s); P(n); for (n = 0; n < 2 && !(%s); n++); P(n); }" % (c, c),
            ][f])
        return self.mk(uid, [], l, body, {"cmp"})

    def u_lit(self, src, uid):
        g, body = [], []
        for i in range(src.range(2, 6)):
            t = src.choice("fdl")
            s = flit(src, t)
            g.append("static %s s%d_%d = %s%s;" % (F[src.choice("fdl")], uid, i, src.choice(["", "-", "+", "- -"]), s))
            body.append("%s(%s); PL(s%d_%d); { %s x = -%s; PL(x); } PF(%s); P(sizeof(%s));" % (PFN[t], s, uid, i, F[t], s, s if t == "f" or float_ok(s) else "1.0", s))
        return self.mk(uid, g, [], body, {"literals"})

    def u_asg(self, src, uid):
        g, l, vs = self.mkvars(src, uid, src.range(2, 5))
        fg = FG(src, vs)
        body = []
        for _ in range(src.range(2, 6)):
            lv, t = src.choice(vs)
            e = fg.leaf()[0] if src.chance(50) else fg.expr(1)[0]
            c = src.below(6)
            if c == 0 and t != "i":
                body.append("PL(%s); PL(%s); PL(%s); PL(%s); PL(%s);" % ("(%s)++" % lv, "++(%s)" % lv, "(%s)--" % lv, "--(%s)" % lv, lv))
            elif c == 1:
                it = src.choice([x for x in ITYPES if x is not BOOL])
                v = src.below(50)
                t2 = src.choice("fdl")
                op = src.choice(["+=", "-=", "*=", "/="]) if it.signed else src.choice(["+=", "*=", "/="])
                body.append("{ %s z = %d; PL((z %s %s)); P(z); }" % (it.name, v, op, src.choice(["1.5", "2.0f", "0.75l", "1.25f"])))
            elif c == 2:
                body.append("{ _Bool z = %d; z += %s; P(z); z = %s; P(z); z *= 0.5; P(z); }" % (src.below(2), "0.5", lv))
            else:
                op = src.choice(["+=", "-=", "*=", "/=", "="])
                if t == "i":
                    body.append("{ %s z = %s; z %s %s; PL(z); }" % (F[src.choice("fdl")], lv, op, e))
                else:
                    body.append("PL(%s %s %s); PL(%s);" % (lv, op, e, lv))
        for v, t in vs:
            body.append(("P(%s);" if t == "i" else "PL(%s);") % v)
        return self.mk(uid, g, l, body, fg.classes | {"asg"})

    def u_deep(self, src, uid):
        """Many live temporaries of mixed class, calls in the middle."""
        g, l, vs = self.mkvars(src, uid, src.range(3, 6))
        fg = FG(src, vs)

        def deep(d):
            if d == 0:
                return fg.expr(1)[0] if src.chance(40) else fg.leaf()[0]
            a = fg.leaf()[0] if src.chance(70) else fg.expr(1)[0]
            r = deep(d - 1)
            op = src.choice("+-*/+-")
            if src.chance(20):
                return "((%s)%s %s (%s))" % (F[src.choice("fdl")], a, op, r)
            return "((%s)(%s) %s (%s))" % (F[src.choice("fdl")], a, op, r) if src.below(2) == 0 else "((%s) %s (%s)(%s))" % (r, op, F[src.choice("fdl")], a)
        return self.mk(uid, g, l, ["PL(%s);" % deep(src.range(3, 14))], fg.classes | {"deep"})


def float_ok(s):
    try:
        return abs(float(s.rstrip("lLfF").replace("'", ""))) < 3e38
    except ValueError:
        return False


CHECK = C03()
