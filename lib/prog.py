"""Random whole functions over scalars, arrays, structs, unions and pointers to them.

All objects are filled before use, arithmetic is done in unsigned types, indices are masked or constant, pointers only
point at live objects of their type: nothing generated is undefined.  Objects are shown as digests of their leaves."""
from lib.agg import TG, Arr, Sc, Mem, Rec, leaves, value, INTS, I_INT, I_UINT, I_LONG, I_UCHAR, I_CHAR, I_SHORT, I_ULONG, FLT, DBL, LDBL

PRELUDE = r'''
static u64 hv; static void H(u64 v) { hv = (hv ^ v) * 0x9e3779b97f4a7c15ul; hv ^= hv >> 29; }
static void HD(double d) { u64 u; memcpy(&u, &d, 8); H(u); }
static void HL(long double d) { u64 u[2] = {0, 0}; memcpy(u, &d, 10); H(u[0]); H(u[1]); }
static int zero(void) { return 0; } static int one(void) { return 1; }
static volatile int vk = 1;
'''


class Obj:
    def __init__(self, name, ty, lv=None):
        self.name, self.ty = name, ty
        self.forms = [name]


class PG:
    def __init__(self, src, uid, ld=True, bitfields=True, nfun=3, budget=14):
        self.s, self.uid = src, uid
        s = src
        self.tg = TG(src, uid, ld=ld and s.chance(20), bitfields=bitfields and s.chance(40), ptrs=False, enums=True, packed=s.chance(10),
                     aligned=s.chance(10), unions=s.chance(30), maxmem=s.choice([2, 3, 4, 6]))
        self.recs = []
        for _ in range(s.range(1, 3)):
            self.recs.append(self.tg.record(s.choice([0, 1, 1])))
        if s.chance(40):
            # big enough to be copied by other means
            self.recs.append(Rec("struct", self.tg.fresh("B"), [Mem(self.tg.mname(), Arr(s.choice(INTS), s.choice([3, 9, 17, 40, 100]))),
                                                                Mem(self.tg.mname(), self.tg.scalar())]))
            self.tg.defs.append(self.recs[-1].define())
        self.picks = {}
        self.nfun = nfun
        self.budget = budget
        self.n = 0
        self.safe = self.effect = False
        self.classes = set()
        self.funs = []          # (name, ret type or None, [param types])

    def pick(self, rec, mems):
        if id(rec) not in self.picks:
            self.picks[id(rec)] = self.s.below(len(mems))
        return mems[self.picks[id(rec)]]

    def name(self, p):
        self.n += 1
        return "%s%s_%d" % (p, self.uid, self.n)

    def leaves(self, ty, path=""):
        return leaves(ty, path, self.pick)

    def type(self):
        s = self.s
        k = s.below(10)
        if k < 4:
            return s.choice(self.recs)
        if k < 8:
            return s.choice(INTS + [FLT, DBL, DBL])
        if k == 8:
            return Arr(s.choice(INTS + [DBL]), s.choice([2, 4, 8, 16]))
        return Arr(s.choice(self.recs), s.choice([2, 4]))

    # ---- scopes: self.objs is the list of visible objects, self.ptrs of visible pointers
    def declare(self, out, ty, static=False, name=None):
        s = self.s
        n = name or self.name("o")
        o = Obj(n, ty)
        qual = s.choice(["", "", "", "", "volatile ", "register "]) if ty.k not in "ar" and not static else ""
        if qual == "register ":
            o.noaddr = True
        if qual == "volatile " :
            o.vol = True
        st = "static " if static else ""
        out.append("%s%s%s;" % (st, qual, ty.decl(n)))
        return o

    def fill(self, out, o):
        """Give every byte, then every leaf, a value."""
        s = self.s
        if not getattr(o, "noaddr", False):
            out.append("memset((void *)&%s, 0, sizeof %s);" % (o.name, o.name))
        lv = self.leaves(o.ty)
        if len(lv) > 12:
            lv = s.sample(lv, 6)
            if o.ty.k == "a" and o.ty.elem.k == "i":
                out.append("for (int i = 0; i < %d; i++) %s[i] = i * %d + %s;" % (o.ty.n, o.name, s.range(1, 50), self.rd(2)))
        if getattr(o, "noaddr", False) and not lv:
            out.append("%s = 0;" % o.name)
        for p, sc, bits in lv:
            out.append("%s%s = %s;" % (o.name, p, value(s, sc, bits)))

    def show(self, o):
        out = []
        lv = self.leaves(o.ty)
        if len(lv) > 40 and o.ty.k == "a" and o.ty.elem.k != "r":
            return "for (int i = 0; i < %d; i++) %s" % (o.ty.n, self.h("%s[i]" % o.name, o.ty.elem))
        if len(lv) > 40:
            lv = lv[:20] + lv[-20:]
        for p, sc, bits in lv:
            out.append(self.h(o.name + p, sc))
        return " ".join(out)

    def h(self, e, sc):
        if sc.k == "f":
            return ("HL(%s);" if sc.name == "long double" else "HD(%s);") % e
        return "H((u64)%s);" % e

    # ---- lvalues
    def form(self, o):
        """An expression designating the whole object o."""
        s = self.s
        n = s.choice(o.forms)
        k = s.below(12)
        if getattr(o, "noaddr", False):
            return n if k else "(%s)" % n
        if k == 0:
            return "(*&%s)" % n
        if k == 1 and not n.startswith("*"):
            return "(&%s)[0]" % n
        if k == 2:
            return "(%s)" % n
        return n

    def objs_of(self, pred):
        return [o for o in self.objs if pred(o.ty)]

    def places(self, ty):
        """Expressions for whole objects of type ty (exact type object)."""
        r = []
        for o in self.objs:
            if o.ty is ty:
                r.append((self.form(o), o))
            elif o.ty.k == "a" and o.ty.elem is ty:
                n = o.ty.n
                r.append(("%s[%s]" % (o.name, self.index(n)), o))
            elif o.ty.k == "r":
                for m in o.ty.mems:
                    if m.ty is ty and m.name and m.bits is None and o.ty.kind == "struct" and not m.post and not o.ty.attr:
                        r.append(("%s.%s" % (self.form(o), m.name), o))
        for p, pty, n in self.ptrs:
            if pty is ty:
                r.append(("%s" % self.s.choice(["(*%s)" % p, "%s[0]" % p] + (["%s[%s]" % (p, self.index(n))] if n > 1 else [])), None))
        return r

    def index(self, n):
        s = self.s
        pw = n & (n - 1) == 0
        k = s.below(5)
        if self.safe or k < 2 or (not pw and k < 4):
            return str(s.below(n))
        if pw:
            return "%s & %d" % (self.rd(1), n - 1)
        return "(u64)%s %% %d" % (self.rd(1), n)

    def scalar_place(self, want=None):
        """(lvalue, scalar type, bits, object)"""
        s = self.s
        for _ in range(6):
            if self.ptrs and s.chance(25):
                p, pty, n = s.choice(self.ptrs)
                base, ty, o = s.choice(["(*%s)" % p, "%s[%s]" % (p, self.index(n))]), pty, None
            else:
                o = s.choice(self.objs)
                base, ty = self.form(o), o.ty
                if ty.k == "a" and s.chance(60):
                    base, ty = "%s[%s]" % (o.name, self.index(ty.n)), ty.elem
            lv = self.leaves(ty)
            if not lv:
                continue
            p, sc, bits = s.choice(lv)
            if want and sc.k != want:
                continue
            if base.startswith("(*") and base[2] != "&" and p.startswith(".") and s.chance(60) and base.count("(") == 1:
                return base[2:-1] + "->" + p[1:], sc, bits, o
            return base + p, sc, bits, o
        return None

    # ---- reading expressions: unsigned long valued, pure
    def rd(self, d):
        s = self.s
        k = s.below(12)
        if d <= 0 or k < 2 or not self.objs:
            return s.weighted([(2, "%dul" % s.below(100)), (1, "0x%xul" % s.bits(64)), (1, "(u64)k")])
        if k < 6:
            r = self.scalar_place("i")
            if r:
                return "(u64)%s" % r[0]
            return "k"
        if k < 9:
            return "(%s %s %s)" % (self.rd(d - 1), s.choice(["+", "-", "*", "^", "&", "|"]), self.rd(d - 1))
        if k == 9:
            return "(%s %s (%s & 63))" % (self.rd(d - 1), s.choice(["<<", ">>"]), self.rd(d - 1))
        if k == 10:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.rd(d - 1), self.rd(d - 1))
        return s.choice(["(u64)(%s)%s" % (s.choice(["i8", "u8", "i16", "u16", "i32", "u32"]), self.rd(d - 1)), "(%s / (%s | 1))" % (self.rd(d - 1), self.rd(d - 1)),
                         "(%s %% 13)" % self.rd(d - 1), "~%s" % self.rd(d - 1), "(u64)\"quick brown\"[%s %% 12]" % self.rd(d - 1)])

    def cond(self, d):
        s = self.s
        k = s.below(6)
        if k < 3:
            return "%s %s %s" % (self.rd(d), s.choice(["<", ">", "==", "!=", "<=", ">="]), self.rd(d))
        if k == 3:
            return "(%s & %d)" % (self.rd(d), 1 << s.below(5))
        if k == 4 and d > 0:
            return "(%s %s %s)" % (self.cond(d - 1), s.choice(["&&", "||"]), self.cond(d - 1))
        r = self.scalar_place()
        return s.choice(["!%s", "%s"]) % r[0] if r else "vk"

    def rec_value(self, ty, d=2, eff=True):
        """An rvalue (or lvalue) expression of record type ty, or None."""
        s = self.s
        pl = self.places(ty)
        k = s.below(9)
        if d > 0 and k == 0:
            a, b = self.rec_value(ty, d - 1, eff), self.rec_value(ty, d - 1, eff)
            if a and b:
                self.classes.add("conditional-struct")
                return "(%s ? %s : %s)" % (self.cond(1), a, b)
        if d > 0 and k == 1 and eff:
            a = self.rec_value(ty, d - 1)
            if a:
                self.effect = True
                self.classes.add("comma-struct")
                return "(H(%s), %s)" % (self.rd(1), a)
        if d > 0 and k == 2:
            a = self.rec_value(ty, d - 1, eff)
            if a:
                self.classes.add("statement-expression-struct")
                t = self.name("t")
                return "({ %s = %s; %s; })" % (ty.decl(t), a, t)
        if k == 3:
            self.classes.add("compound-literal")
            lv = self.leaves(ty)
            return "(%s){ %s }" % (ty.spell(), ", ".join("%s = %s" % (p, self.sval(sc, b)) for p, sc, b in lv[:6])) if ty.kind == "struct" else None
        if k in (4, 5) and eff:
            c = [f for f in self.funs if f[1] is ty]
            if c:
                self.classes.add("call-struct")
                self.effect = True
                return self.call(s.choice(c), d - 1)
        return s.choice(pl)[0] if pl else None

    def sval(self, sc, bits=None):
        """A value to store in a scalar."""
        s = self.s
        if sc.k == "f":
            return s.choice(["(%s)(i32)%s" % (sc.name, self.rd(1)), value(s, sc), "(i32)%s * 0.5" % self.rd(1)])
        return s.choice([self.rd(2), self.rd(1), value(s, sc, bits)])

    def call(self, f, d=1):
        """Call expression text (may be None-typed)."""
        s = self.s
        args = []
        for t in f[2]:
            if isinstance(t, tuple):          # pointer to t[1], n elements
                c = [o for o in self.objs if not getattr(o, "noaddr", False) and not getattr(o, "vol", False) and
                     (o.ty is t[1] or (o.ty.k == "a" and o.ty.elem is t[1] and o.ty.n >= 1))]
                pp = [p for p, pty, n in self.ptrs if pty is t[1]]
                if pp and s.chance(40):
                    args.append(s.choice(pp))
                elif c:
                    o = s.choice(c)
                    args.append("&" + o.name if o.ty is t[1] else s.choice(["%s", "&%s[%d]" % ("%s", s.below(o.ty.n))]) % o.name)
                else:
                    args.append("&(%s){0}" % t[1].spell() if t[1].k == "r" else "&(%s){0}" % t[1].spell())
            elif t.k == "r":
                a = self.rec_value(t, 1, False)
                args.append(a or "(%s){0}" % t.spell())
            else:
                args.append(self.sval(t))
        return "%s(%s)" % (s.choice([f[0], f[0], "(*%s)" % f[0], "(&%s)" % f[0], "tab_%s[%s & 1]" % (f[0], self.rd(1))]), ", ".join(args))

    # ---- statements
    def stmt(self, out, depth):
        s = self.s
        self.budget -= 1
        k = s.below(30)
        if k < 8:
            r = self.scalar_place()
            if not r:
                return
            l, sc, bits, o = r
            j = s.below(10)
            if sc.k == "f" or (sc.k == "i" and sc.t.boolean) or getattr(sc, "isenum", 0):
                j = j % 6
            if j < 6:
                out.append("%s = %s;" % (l, self.sval(sc, bits)))
            elif j == 6 and not sc.t.signed and sc.t.rank >= 3:
                out.append("%s %s= %s;" % (l, s.choice(["+", "-", "*", "^", "|", "&"]), self.rd(1)))
            elif j == 7:
                out.append("%s %s= %s;" % (l, s.choice(["^", "|", "&"]), self.rd(1)))
            elif j == 8 and sc.t.rank < 3:
                out.append("%s;" % s.choice(["%s++", "++%s", "%s--", "--%s"]) % l if bits is None else "%s = 1;" % l)
            else:
                # (the address first, so that the order of evaluation does not matter)
                out.append("H((u64)(%s = %s));" % (l, self.sval(sc, bits)))
        elif k < 13:
            t = s.choice(self.recs)
            self.effect = False
            v = self.rec_value(t)
            self.safe = self.effect
            pl = self.places(t)
            self.safe = False
            if pl and v:
                self.classes.add("struct-assign")
                p = s.choice(pl)[0]
                j = s.below(8)
                if j == 0:
                    p2 = s.choice(pl)[0]
                    out.append("%s = %s = %s;" % (p, p2, v))
                elif j == 1:
                    lv = self.leaves(t)
                    q = s.choice(lv)
                    out.append(self.h("(%s = %s)%s" % (p, v, q[0]), q[1]))
                elif j == 2:
                    lv = self.leaves(t)
                    q = s.choice(lv)
                    out.append(self.h("(%s)%s" % (v, q[0]), q[1]))
                elif j == 3:
                    out.append("memmove(&%s, &%s, sizeof(%s));" % (p, s.choice(pl)[0], t.spell()))
                elif j == 4:
                    out.append("{ %s = %s; %s = %s; }" % (t.decl("t"), v, p, "t"))
                else:
                    out.append("%s = %s;" % (p, v))
        elif k < 16 and depth > 0:
            out.append("if (%s) {" % self.cond(1))
            self.block(out, depth - 1)
            if s.chance(50):
                out.append("} else {")
                self.block(out, depth - 1)
            out.append("}")
        elif k < 19 and depth > 0:
            i = self.name("i")
            n = s.range(1, 4)
            out.append(s.choice(["for (int @ = 0; @ < %d; @++) {", "for (unsigned char @ = %d; @--; ) {", "for (long @ = -%d; @; @ += 1) {"]).replace("@", i) % n)
            self.block(out, depth - 1)
            out.append("}")
        elif k < 21 and depth > 0:
            out.append("{")
            self.block(out, depth - 1)
            out.append("}")
        elif k < 25 and self.funs:
            f = s.choice(self.funs)
            c = self.call(f)
            self.classes.add("call")
            if f[1] is None:
                out.append(c + ";")
            elif f[1].k == "r":
                q = s.choice(self.leaves(f[1]) or [("", None, None)])
                if q[1] is None:
                    out.append(c + ";")
                else:
                    out.append(self.h(c + q[0], q[1]))
            else:
                out.append(self.h(c, f[1]))
        elif k < 27:
            # move a pointer to another object of its type
            if self.ptrs:
                i = s.below(len(self.ptrs))
                p, pty, n = self.ptrs[i]
                a = self.addrs(pty, n)
                if a and (p, pty, n) not in self.params and self.nest_of.get(p) == self.depth:
                    out.append("%s = %s;" % (p, s.choice(a)))
                    self.classes.add("pointer-move")
        elif k == 27:
            # array walk with a moving pointer
            c = self.objs_of(lambda t: t.k == "a" and t.elem.k == "i" and not t.elem.t.boolean)
            if c:
                o = s.choice(c)
                e = o.ty.elem
                q = self.name("q")
                self.classes.add("pointer-walk")
                out.append(self.walk(e, o, q))
        elif k == 28:
            out.append(self.bytes())
        else:
            r = self.scalar_place("i")
            if r and depth > 0:
                out.append("switch (%s & 3) {" % self.rd(1))
                for c in range(s.range(1, 3)):
                    out.append("case %d: {" % c)
                    self.block(out, 0)
                    out.append("}" + s.choice([" break;", ""]))
                if s.chance(50):
                    out.append("default: ;")
                out.append("}")

    def walk(self, e, o, q):
        s = self.s
        t, n, c = e.spell(), o.name, o.ty.n
        return s.choice([
            "for (%s *%s = %s; %s < %s + %d; ) H((u64)*%s++);" % (t, q, n, q, n, c, q),
            "for (%s *%s = %s; %s != &%s[%d]; ++%s) { *%s ^= %s; }" % (t, q, n, q, n, c, q, q, self.rd(1)),
            "{ %s *%s = %s; H((u64)(%s + 1)[0]); H((u64)1[%s]); H(&%s[1] - %s); H((u64)*(%s + (%d - 1))); }" % (t, q, n, q, q, q, q, q, c),
            "{ %s *%s = %s + %d; while (%s > %s) { --%s; *%s = (%s)(*%s * 2u); } }" % (t, q, n, c, q, n, q, q, t, q),
            "{ %s (*%s)[%d] = &%s; H((u64)(*%s)[%d]); H(sizeof *%s); (*%s)[%s] = %s; }" % (t, q, c, n, q, s.below(c), q, q, self.index(c), self.rd(1)),
            "{ %s *%s = %s, **%sp = &%s; *(*%sp)++ = %s; H(%s - %s); H((u64)%s[-1]); }" % (t, q, n, q, q, q, self.rd(1), q, n, q),
        ])

    def bytes(self):
        s = self.s
        c = [o for o in self.objs if o.ty.k == "r" and not getattr(o, "noaddr", 0) and self.nopad(o)]
        c += self.objs_of(lambda t: t.k == "a" and t.elem.k == "i" and not t.elem.t.boolean)
        if not c:
            return ";"
        o = s.choice(c)
        self.classes.add("byte-access")
        if o.ty.k == "r":
            return "{ unsigned char *b = (unsigned char *)&%s; for (unsigned j = 0; j < sizeof %s; j++) b[j] = 0; }" % (o.name, o.name)
        return "{ unsigned char *b = (void *)&%s; for (int j = 0; j < (int)sizeof %s; j++) { b[j] += %d; H(b[j]); } }" % (o.name, o.name, s.below(9))

    def nopad(self, o):
        return True

    def addrs(self, ty, n):
        r = []
        for o in self.objs:
            if getattr(o, "noaddr", False) or getattr(o, "vol", False) or getattr(o, "depth", 0) > self.depth:
                continue
            if o.ty is ty and n == 1:
                r.append("&" + o.name)
            elif o.ty.k == "a" and o.ty.elem is ty:
                if o.ty.n >= n:
                    off = self.s.below(o.ty.n - n + 1)
                    r.append("&%s[%d]" % (o.name, off))
                    r.append("%s + %d" % (o.name, off))
            elif o.ty.k == "r" and n == 1 and not o.ty.attr and o.ty.kind == "struct":
                for m in o.ty.mems:
                    if m.ty is ty and m.name and m.bits is None and not m.post:
                        r.append("&%s.%s" % (o.name, m.name))
        return r

    def block(self, out, depth):
        s = self.s
        objs, ptrs = list(self.objs), list(self.ptrs)
        self.depth += 1
        new = []
        for _ in range(s.choice([0, 0, 1, 1, 2])):
            o = self.declare(out, self.type())
            o.depth = self.depth
            self.fill(out, o)
            self.objs.append(o)
            new.append(o)
        if s.chance(40):
            self.pointer(out)
        for _ in range(1 + s.below(3)):
            if self.budget <= 0:
                break
            self.stmt(out, depth)
        for o in new:
            out.append(self.show(o))
        self.depth -= 1
        self.objs, self.ptrs = objs, ptrs

    def pointer(self, out):
        s = self.s
        for _ in range(4):
            t = s.choice(self.recs + [I_INT, I_UCHAR, I_LONG, DBL, I_SHORT])
            n = s.choice([1, 1, 2])
            a = self.addrs(t, n)
            if a:
                p = self.name("p")
                out.append("%s *%s = %s;" % (t.spell(), p, s.choice(a)))
                self.ptrs.append((p, t, n))
                self.nest_of[p] = self.depth
                self.classes.add("pointer")
                return

    def function(self, name, ret, params, glob):
        s = self.s
        self.objs, self.ptrs = list(glob), []
        self.depth = 0
        self.nest_of = {}
        out = []
        ps = ["int k"]
        for t in params:
            n = self.name("a")
            if isinstance(t, tuple):
                ps.append("%s *%s" % (t[1].spell(), n))
                self.ptrs.append((n, t[1], 1))
            else:
                ps.append(t.decl(n))
                o = Obj(n, t)
                self.objs.append(o)
        self.params = list(self.ptrs)
        locs = []
        for _ in range(s.range(1, 4)):
            o = self.declare(out, self.type())
            o.depth = 0
            self.fill(out, o)
            self.objs.append(o)
            locs.append(o)
        for _ in range(s.below(3)):
            self.pointer(out)
        for _ in range(s.range(3, 8)):
            if self.budget <= 0:
                break
            self.stmt(out, 2)
        for o in self.objs[len(glob):]:
            if o in locs or s.chance(70):
                out.append(self.show(o))
        if ret is not None:
            if ret.k == "r":
                v = self.rec_value(ret) or "(%s){0}" % ret.spell()
            else:
                v = self.sval(ret)
            out.append("return %s;" % v)
        rt = "void %s(%s)" if ret is None else None
        sig = "%s(%s)" % (name, ", ".join(ps))
        dec = ("void " + sig) if ret is None else ret.decl(sig)
        return dec, out

    def unit(self):
        """(code, call)"""
        s = self.s
        glob, gd = [], []
        for _ in range(s.range(1, 3)):
            o = self.declare(gd, self.type(), static=True, name=self.name("g"))
            glob.append(o)
        total = self.budget
        code = []
        for i in range(self.nfun):
            ret = s.choice([None, s.choice(self.recs), s.choice(self.recs), s.choice(INTS + [DBL, FLT])])
            params = []
            for _ in range(s.below(4)):
                k = s.below(4)
                params.append(s.choice(self.recs) if k == 0 else ("p", s.choice(self.recs + [I_INT, DBL, I_UCHAR])) if k == 1 else s.choice(INTS + [DBL, FLT]))
            name = self.name("f")
            self.budget = total
            dec, body = self.function(name, ret, params, glob)
            inl = s.choice(["static ", "static ", "static inline ", ""])
            code.append("%s%s {\n  %s\n}" % (inl, dec, "\n  ".join(body)))
            code.append("static typeof(&%s) tab_%s[2] = { %s, &%s };" % (name, name, name, name))
            # callers pass k = 1 as the first argument
            self.funs.append((name, ret, [I_INT] + params))
        self.objs, self.ptrs, self.params, self.depth, self.nest_of = list(glob), [], [], 0, {}
        self.budget = total
        main = ["hv = %d;" % self.s.below(1000)]
        for o in glob:
            self.fill(main, o)
        for f in self.funs:
            for _ in range(s.range(1, 2)):
                self.depth = 0
                c = self.call(f)
                if f[1] is None:
                    main.append(c + ";")
                elif f[1].k == "r":
                    for q in (self.leaves(f[1]) or [])[:1]:
                        main.append(self.h(c + q[0], q[1]))
                else:
                    main.append(self.h(c, f[1]))
                main.append("P(hv);")
        for o in glob:
            main.append(self.show(o))
        main.append("P(hv);")
        fn = self.name("main")
        code = self.tg.defs + gd + code + ["static void %s(int k) {\n  %s\n}" % (fn, "\n  ".join(main))]
        return "\n".join(code), "%s(3);" % fn
