"""Value-tracking generator of well-defined C integer expressions.

Every generated sub-expression carries its C type and its exact value, computed here, so that undefined
behaviour (signed overflow, bad shifts, division traps) is avoided by construction.  Side effects only
touch variables that nothing else in the same full expression refers to, except across sequence points.
"""


class T:
    def __init__(self, name, bits, signed, rank, boolean=False, suffix=""):
        self.name, self.bits, self.signed, self.rank, self.boolean, self.suffix = name, bits, signed, rank, boolean, suffix
        if boolean:
            self.lo, self.hi = 0, 1
        elif signed:
            self.lo, self.hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            self.lo, self.hi = 0, (1 << bits) - 1

    def wrap(self, v):
        if self.boolean:
            return 1 if v else 0
        v &= (1 << self.bits) - 1
        if self.signed and v >> (self.bits - 1):
            v -= 1 << self.bits
        return v

    def __repr__(self):
        return self.name


BOOL = T("_Bool", 8, False, 0, True)
CHAR = T("char", 8, True, 1)
SCHAR = T("signed char", 8, True, 1)
UCHAR = T("unsigned char", 8, False, 1)
SHORT = T("short", 16, True, 2)
USHORT = T("unsigned short", 16, False, 2)
INT = T("int", 32, True, 3)
UINT = T("unsigned int", 32, False, 3, suffix="u")
LONG = T("long", 64, True, 4, suffix="l")
ULONG = T("unsigned long", 64, False, 4, suffix="ul")
LLONG = T("long long", 64, True, 5, suffix="ll")
ULLONG = T("unsigned long long", 64, False, 5, suffix="ull")
ITYPES = [INT, UINT, LONG, ULONG, CHAR, UCHAR, SHORT, USHORT, SCHAR, BOOL, LLONG, ULLONG]
UNSIGNED_OF = {INT: UINT, LONG: ULONG, LLONG: ULLONG}


def promote(t):
    return INT if t.rank < 3 else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    s, u = (a, b) if a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.bits > u.bits:
        return s
    return UNSIGNED_OF[s]


P_COMMA, P_ASSIGN, P_COND, P_LOR, P_LAND, P_OR, P_XOR, P_AND, P_EQ, P_REL, P_SHIFT, P_ADD, P_MUL, P_UNARY, P_POST, P_PRIM = range(1, 17)


class Ex:
    __slots__ = ("s", "p", "t", "v", "const", "n")

    def __init__(self, s, p, t, v, const=False, n=1):
        self.s, self.p, self.t, self.v, self.const, self.n = s, p, t, v, const, n


BINPREC = {"+": P_ADD, "-": P_ADD, "*": P_MUL, "/": P_MUL, "%": P_MUL, "<<": P_SHIFT, ">>": P_SHIFT, "&": P_AND,
           "|": P_OR, "^": P_XOR, "==": P_EQ, "!=": P_EQ, "<": P_REL, "<=": P_REL, ">": P_REL, ">=": P_REL}


def interesting(src, t):
    """A value of type t, biased to the values instruction selection cares about."""
    if t.boolean:
        return src.below(2)
    k = src.below(14)
    if k == 0:
        v = src.below(4)
    elif k == 1:
        v = -1 - src.below(3)
    elif k == 2:
        v = 1 << src.below(64)
    elif k == 3:
        v = (1 << src.below(64)) - 1
    elif k == 4:
        v = (1 << src.below(64)) + 1
    elif k == 5:
        v = -(1 << src.below(64))
    elif k == 6:
        v = src.choice([t.lo, t.hi, t.hi - 1, t.lo + 1])
    elif k == 7:
        v = src.below(300)
    elif k == 8:
        v = -src.below(300)
    elif k == 9:
        v = src.choice([0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, -0x80000000, -0x80000001, 0x7f, 0x80, 0xff,
                        0x100, 0x7fff, 0x8000, 0xffff, 0x10000, -0x80, -0x81, -0x8000, -0x8001, 0xffffffff00000000 - (1 << 64)])
    elif k == 10:
        v = src.bits(16)
    elif k == 11:
        v = src.bits(32)
    elif k == 12:
        v = -src.bits(31)
    else:
        v = src.bits(64)
    return t.wrap(v)


def literal(src, t, v, plain=False):
    """Text (prec) of a constant expression of exactly type t (after promotion for narrow t) and value v."""
    if t.rank < 3:
        base = INT
    else:
        base = t
    neg = v < 0
    a = -v if neg else v
    if base.signed and a > base.hi:          # most negative value
        inner = "%s - 1" % literal(src, base, v + 1, True)[0]
        s, p = "(" + inner + ")", P_PRIM
    else:
        form = 0 if plain else src.weighted([(6, 0), (3, 1), (1, 2), (1, 3)])
        # hex/octal/binary literals of a type: suffix decides rank, value decides signedness; keep exact
        suf = base.suffix
        if form == 0:
            num = "%d" % a
        elif form == 1:
            num = "0x%x" % a
        elif form == 2:
            num = "0%o" % a
        else:
            num = "0b%s" % bin(a)[2:]
        if not plain and suf and src.chance(20):
            suf = suf.upper() if suf != "ull" else "uLL"
        s, p = num + suf, P_PRIM
        if neg:
            s, p = "-" + s, P_UNARY
    if t.rank < 3 and not plain:
        s = "(%s)%s" % (t.name, s if p >= P_UNARY else "(%s)" % s)
        p = P_UNARY
    return s, p


class Var:
    __slots__ = ("text", "prec", "t", "v", "const", "vol", "init", "name", "addr_ok")

    def __init__(self, text, t, v, prec=P_PRIM, const=False, addr_ok=True):
        self.text, self.t, self.v, self.prec, self.const, self.addr_ok = text, t, v, prec, const, addr_ok


class Gen:
    """Generates expressions over a list of Var.  consumed = variables no longer usable in this full expression."""

    def __init__(self, src, vars, calls=True, stmt_expr=True, constonly=False, funcs=None, types=ITYPES):
        self.src, self.vars, self.types = src, vars, types
        self.used = set()       # read somewhere in this full expression
        self.dead = set()       # modified somewhere in this full expression
        self.calls, self.stmt_expr, self.constonly = calls, stmt_expr, constonly
        self.classes = set()
        self.mod = []
        self.dry = 0
        self.pref = []          # variables that may be read although modified (sequenced after)
        self.tmp = 0

    # -- helpers
    def par(self, e, minp):
        if e.p >= minp and not self.src.chance(6):
            return e.s
        return "(" + e.s + ")"

    def full(self):
        """Start a new full expression."""
        self.used, self.dead = set(), set()

    def const(self, t=None):
        t = t or self.src.choice(self.types)
        v = interesting(self.src, t)
        s, p = literal(self.src, t, v)
        return Ex(s, p, t, v, True)

    def leaf(self, t=None):
        src = self.src
        if self.pref and src.chance(50):
            v = src.choice(self.pref)
            return Ex(v.text, v.prec, v.t, v.v)
        if self.constonly or src.chance(35):
            if src.chance(8):
                return self.misc_const()
            return self.const(t)
        cand = [v for v in self.vars if v not in self.dead and (t is None or v.t is t)]
        if not cand:
            return self.const(t)
        v = src.choice(cand)
        self.used.add(v)
        return Ex(v.text, v.prec, v.t, v.v)

    def misc_const(self):
        src = self.src
        k = src.below(3)
        if k == 0:
            c = src.choice("aZ09 ~")
            return Ex("'%s'" % c, P_PRIM, INT, ord(c), True)
        if k == 1:
            t = src.choice(self.types)
            return Ex("sizeof(%s)" % t.name, P_UNARY, ULONG, t.bits // 8, True)
        return Ex("sizeof(int[%d])" % 3, P_UNARY, ULONG, 12, True)

    def expr(self, d):
        src = self.src
        if d <= 0:
            return self.leaf()
        k = src.weighted([(8, "leaf"), (40, "bin"), (12, "cast"), (10, "un"), (7, "cond"), (8, "logic"),
                          (0 if self.constonly else 9, "assign"), (0 if self.constonly else 6, "incdec"),
                          (0 if self.constonly else 3, "comma"), (0 if self.constonly or not self.calls else 6, "call"),
                          (0 if self.constonly or not self.stmt_expr else 2, "stmt"), (2, "generic")])
        return getattr(self, "g_" + k)(d)

    def g_leaf(self, d):
        return self.leaf()

    def g_bin(self, d):
        src = self.src
        op = src.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%", "==", "!=", "<", "<=", ">", ">="])
        ld, rd = d - 1, d - 1
        if src.chance(50):
            ld, rd = (d - 1, src.below(d)) if src.chance(50) else (src.below(d), d - 1)
        l = self.expr(ld)
        if op in ("<<", ">>"):
            return self.shift(op, l, rd)
        r = self.expr(rd)
        return self.binop(op, l, r)

    def shift(self, op, l, rd):
        src = self.src
        t = promote(l.t)
        if src.chance(45):
            # variable count, masked into range
            r = self.expr(rd)
            n = r.v & (t.bits - 1)
            r = Ex("%s & %d" % (self.par(r, P_AND), t.bits - 1), P_AND, common(r.t, INT), n, r.const)
        else:
            n = src.below(t.bits)
            ct = src.choice([INT, INT, UINT, LONG, UCHAR])
            s, p = literal(src, ct, n)
            r = Ex(s, p, ct, n, True)
        lv = t.wrap(l.v)
        if op == "<<":
            v = lv << n
            if t.signed and (lv < 0 or v > t.hi):
                ut = UNSIGNED_OF[t]
                l = Ex("(%s)%s" % (ut.name, self.par(l, P_UNARY)), P_UNARY, ut, ut.wrap(lv), l.const)
                t = ut
                v = t.wrap(l.v << n)
        else:
            v = lv >> n
        self.classes.add("shift")
        return Ex("%s %s %s" % (self.par(l, P_SHIFT), op, self.par(r, P_SHIFT + 1)), P_SHIFT, t, v, l.const and r.const)

    def cast_to(self, e, t):
        return Ex("(%s)%s" % (t.name, self.par(e, P_UNARY)), P_UNARY, t, t.wrap(e.v), e.const)

    def binop(self, op, l, r):
        src = self.src
        p = BINPREC[op]
        t = common(l.t, r.t)
        a, b = t.wrap(l.v), t.wrap(r.v)
        cst = l.const and r.const
        if op in ("==", "!=", "<", "<=", ">", ">="):
            v = int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
            rt = INT
            self.classes.add("cmp")
        else:
            rt = t
            if op in ("/", "%"):
                if b == 0 or (t.signed and a == t.lo and b == -1):
                    op = "|"
                    p = P_OR
                else:
                    self.classes.add("div")
            if op == "/":
                v = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op == "%":
                v = abs(a) % abs(b) * (1 if a >= 0 else -1)
            elif op == "&":
                v = a & b
            elif op == "|":
                v = a | b
            elif op == "^":
                v = a ^ b
            else:
                v = a + b if op == "+" else a - b if op == "-" else a * b
                if t.signed and not (t.lo <= v <= t.hi):
                    ut = UNSIGNED_OF[t]
                    if src.chance(50):
                        l = self.cast_to(l, ut)
                    else:
                        r = self.cast_to(r, ut)
                    rt = common(l.t, r.t)
                    v = rt.wrap(v)
                    if rt.signed:    # cannot happen: ut rank >= t rank
                        raise AssertionError
                v = rt.wrap(v)
        return Ex("%s %s %s" % (self.par(l, p), op, self.par(r, p + 1)), p, rt, v, cst)

    def g_cast(self, d):
        t = self.src.choice(self.types)
        self.classes.add("cast")
        return self.cast_to(self.expr(d - 1), t)

    def g_un(self, d):
        op = self.src.choice(["-", "~", "!", "+"])
        e = self.expr(d - 1)
        t = promote(e.t)
        v = t.wrap(e.v)
        if op == "!":
            return Ex("!" + self.par(e, P_UNARY), P_UNARY, INT, int(e.v == 0), e.const)
        if op == "-":
            if t.signed and v == t.lo:
                op, v = "~", ~v
            else:
                v = t.wrap(-v)
        elif op == "~":
            v = t.wrap(~v)
        s = self.par(e, P_UNARY)
        if s[0] in "+-" and op in "+-":
            s = " " + s
        return Ex(op + s, P_UNARY, t, v, e.const)

    # conditional evaluation: generate a branch that is not executed
    def branch(self, d, taken):
        if taken:
            return self.expr(d)
        save = [v.v for v in self.vars]
        mod = len(self.mod)
        self.dry += 1
        e = self.expr(d)
        self.dry -= 1
        for v, x in zip(self.vars, save):
            v.v = x
        return e

    def g_cond(self, d):
        src = self.src
        c = self.expr(d - 1)
        if src.chance(15) and not self.constonly:
            # GNU a ?: b
            e = self.branch(d - 1, c.v == 0)
            t = common(c.t, e.t)
            if c.t is e.t and c.t.rank >= 3:
                t = c.t
            v = t.wrap(c.v if c.v else e.v)
            return Ex("%s ?: %s" % (self.par(c, P_LOR), self.par(e, P_COND)), P_COND, t, v, c.const and e.const)
        a = self.branch(d - 1, c.v != 0)
        b = self.branch(d - 1, c.v == 0)
        t = common(a.t, b.t)
        v = t.wrap(a.v if c.v else b.v)
        self.classes.add("cond")
        return Ex("%s ? %s : %s" % (self.par(c, P_LOR), self.par(a, P_COMMA + 1), self.par(b, P_COND)), P_COND, t, v,
                  c.const and a.const and b.const)

    def g_logic(self, d):
        src = self.src
        op = src.choice(["&&", "||"])
        l = self.expr(d - 1)
        need = (l.v != 0) if op == "&&" else (l.v == 0)
        r = self.branch(d - 1, need)
        v = int(bool(l.v) and bool(r.v)) if op == "&&" else int(bool(l.v) or bool(r.v))
        p = P_LAND if op == "&&" else P_LOR
        self.classes.add("logic")
        return Ex("%s %s %s" % (self.par(l, p), op, self.par(r, p + 1)), p, INT, v, l.const and r.const)

    def pick_mod(self):
        cand = [v for v in self.vars if v not in self.dead and v not in self.used and not v.const]
        if not cand:
            return None
        v = self.src.choice(cand)
        self.dead.add(v)
        return v

    def store(self, var, v):
        var.v = var.t.wrap(v)
        return var.v

    def lval(self, var):
        """Alternative spellings of an lvalue."""
        if var.addr_ok and self.src.chance(12):
            return "*&" + (var.text if var.prec >= P_UNARY else "(%s)" % var.text), P_UNARY
        if self.src.chance(6):
            return "(%s)" % var.text, P_PRIM
        return var.text, var.prec

    def g_assign(self, d):
        src = self.src
        var = self.pick_mod()
        if var is None:
            return self.leaf()
        op = src.choice(["=", "+=", "-=", "^=", "|=", "&=", "*=", "<<=", ">>=", "/=", "%="])
        r = self.expr(d - 1)
        text, lp = self.lval(var)
        lt = promote(var.t)
        if op == "=":
            v = r.v
        elif op in ("<<=", ">>="):
            n = src.below(lt.bits) if var.t.rank >= 3 or op == ">>=" else src.below(8)
            cur = lt.wrap(var.v)
            if op == "<<=" and lt.signed and (cur < 0 or (cur << n) > lt.hi):
                op = ">>="
            if src.chance(50):
                cnt = Ex("(%s & %d)" % (self.par(r, P_AND), lt.bits - 1), P_PRIM, INT, r.v & (lt.bits - 1))
                n = cnt.v
                if op == "<<=" and lt.signed and (cur << n) > lt.hi:
                    op = ">>="
            else:
                cnt = Ex(str(n), P_PRIM, INT, n)
            r = cnt
            v = cur << n if op == "<<=" else cur >> n
        else:
            t = common(var.t, r.t)
            a, b = t.wrap(var.v), t.wrap(r.v)
            o = op[0]
            if o in "/%" and (b == 0 or (t.signed and a == t.lo and b == -1)):
                op, o = "^=", "^"
            if o == "+":
                v = a + b
            elif o == "-":
                v = a - b
            elif o == "*":
                v = a * b
            elif o == "/":
                v = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif o == "%":
                v = abs(a) % abs(b) * (1 if a >= 0 else -1)
            elif o == "&":
                v = a & b
            elif o == "|":
                v = a | b
            else:
                v = a ^ b
            if t.signed and not (t.lo <= v <= t.hi):
                ut = UNSIGNED_OF[t]
                r = self.cast_to(r, ut)
                v = ut.wrap(v)
        nv = self.store(var, v)
        self.classes.add("assign" if op == "=" else "opassign")
        return Ex("%s %s %s" % (text if lp >= P_UNARY else "(%s)" % text, op, self.par(r, P_ASSIGN)), P_ASSIGN, var.t, nv)

    def g_incdec(self, d):
        var = self.pick_mod()
        if var is None:
            return self.leaf()
        up = self.src.below(2) == 0
        post = self.src.below(2) == 0
        old = var.v
        t = promote(var.t)
        if t is var.t and t.signed and old == (t.hi if up else t.lo):
            up = not up
        if var.t.boolean:
            nv = 1 if up else 1 - old
        else:
            nv = var.t.wrap(old + (1 if up else -1))
        var.v = nv
        text, lp = self.lval(var)
        if lp < P_POST and post:
            text = "(%s)" % text
        op = "++" if up else "--"
        self.classes.add("incdec")
        if post:
            return Ex(text + op, P_POST, var.t, old)
        return Ex(op + text, P_UNARY, var.t, nv)

    def g_comma(self, d):
        l = self.g_assign(d - 1) if self.src.chance(60) else self.expr(d - 1)
        # what was modified on the left may be read on the right
        r = self.expr(d - 1)
        return Ex("(%s, %s)" % (self.par(l, P_COMMA), self.par(r, P_ASSIGN)), P_PRIM, r.t, r.v)

    def g_call(self, d):
        """call of id_<type>(x) or a multi-argument mixing function supplied by the prelude."""
        src = self.src
        self.classes.add("call")
        t = src.choice(self.types)
        tn = t.name.replace(" ", "_").replace("_Bool", "bool")
        if src.chance(30):
            n = src.choice([2, 3, 7, 9])
            args = [self.expr(src.below(d)) for _ in range(n)]
            v = 0
            for i, a in enumerate(args):
                v = (v * 31 + ULONG.wrap(LONG.wrap(a.v) if a.t.signed else a.v) + i) & ULONG.hi
            return Ex("mix%d(%s)" % (n, ", ".join(self.par(a, P_ASSIGN) for a in args)), P_POST, ULONG, v)
        e = self.expr(d - 1)
        fn = "id_" + tn
        if src.chance(15):
            fn = "(*p%s)" % fn
        return Ex("%s(%s)" % (fn, self.par(e, P_ASSIGN)), P_POST, t, t.wrap(e.v))

    def g_stmt(self, d):
        src = self.src
        self.tmp += 1
        n = "se%d" % self.tmp
        t = src.choice(self.types)
        e = self.expr(d - 1)
        v = Var(n, t, t.wrap(e.v))
        self.pref.append(v)
        self.vars.append(v)
        self.dead.add(v)
        r = self.expr(d - 1)
        self.pref.remove(v)
        self.vars.remove(v)
        self.classes.add("stmtexpr")
        return Ex("({ %s %s = %s; %s; })" % (t.name, n, self.par(e, P_ASSIGN), r.s), P_PRIM, r.t, r.v)

    def g_generic(self, d):
        e = self.expr(d - 1)
        t = e.t
        o = self.src.choice([x for x in (INT, UINT, LONG, SHORT) if x is not t])
        # lvalue conversion gives the unqualified type; bool and char stay themselves
        ctl = e.s if e.p > P_COMMA else "(%s)" % e.s
        return Ex("_Generic((%s)0, %s: 77, default: %s)" % (t.name, o.name, ctl), P_PRIM, t, e.v, e.const)


CALL_PRELUDE = "".join(
    "static %s id_%s(%s x) { return x; } static %s (*pid_%s)(%s) = id_%s;\n" % (
        t.name, t.name.replace(" ", "_").replace("_Bool", "bool"), t.name, t.name,
        t.name.replace(" ", "_").replace("_Bool", "bool"), t.name, t.name.replace(" ", "_").replace("_Bool", "bool"))
    for t in ITYPES) + "".join(
    "static unsigned long mix%d(%s) { unsigned long v = 0; %s return v; }\n" % (
        n, ", ".join("long a%d" % i for i in range(n)), " ".join("v = v * 31 + a%d + %d;" % (i, i) for i in range(n)))
    for n in (2, 3, 7, 9))
