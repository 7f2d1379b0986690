"""C24: inline assembly. Random operand lists around templates whose meaning does not depend on where the
compiler puts the operands, in functions with much live state; results against gcc and clang."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib import cc

APRELUDE = PRELUDE + r'''
#define HIDE(x) (*(__typeof__(x) *volatile []){ &(x) }[0])
static void PF(double x) { u64 u; memcpy(&u, &x, 8); printf("%lx\n", u); }
static void PFF(float x) { u32 u; memcpy(&u, &x, 4); printf("%x\n", u); }
static void PL(long double x) { unsigned char b[16]; memcpy(b, &x, 10); PB(b, 10); }
static volatile long vol = 3; static long cnt;
static long id(long x) { return x + vol - 3; } static double idd(double x) { return x + (vol - 3); } static void *idp(void *p) { return p; }
static long tick(void) { return ++cnt; }
static long mix6(long a, long b, int c, double d, long e, unsigned char f) { return a * 3 + b * 5 + c * 7 + (long)d + e * 11 + f * 13; }
enum E { EA = -3, EB = 70000 };
typedef struct S { int a; char b[5]; u64 c; double d; float f; short h; unsigned bf1 : 5; unsigned bf2 : 11; int bf3 : 9; u64 bf4 : 37; int bf5 : 27; _Bool z; struct { short m[3]; } in; } S;
long chk_(void (*f)(void));
__asm__(".pushsection .text\n.globl chk_\n.type chk_, @function\nchk_:\n"
 "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\nsub $40, %rsp\n"
 "movq $0x12345671, %rbx\nmovq $0x23456782, %rbp\nmovq $0x34567893, %r12\nmovq $0x45678904, %r13\nmovq $0x56789015, %r14\nmovq $0x67890126, %r15\n"
 "call *%rdi\nmovl $0, %eax\n"
 "cmpq $0x12345671, %rbx\nje 1f\norl $1, %eax\n1: cmpq $0x23456782, %rbp\nje 1f\norl $2, %eax\n1: cmpq $0x34567893, %r12\nje 1f\norl $4, %eax\n"
 "1: cmpq $0x45678904, %r13\nje 1f\norl $8, %eax\n1: cmpq $0x56789015, %r14\nje 1f\norl $16, %eax\n1: cmpq $0x67890126, %r15\nje 1f\norl $32, %eax\n"
 "1: fnstenv (%rsp)\nfldenv (%rsp)\ncmpw $0xffff, 8(%rsp)\nje 1f\norl $64, %eax\nfninit\n1:\n"
 "add $40, %rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size chk_, .-chk_\n.popsection");
'''

GP = ["ax", "bx", "cx", "dx", "si", "di", "8", "9", "10", "11", "12", "13", "14", "15"]
FIX = {"ax": "a", "bx": "b", "cx": "c", "dx": "d", "si": "S", "di": "D"}
CT = {"i8": (1, "i"), "u8": (1, "i"), "char": (1, "i"), "_Bool": (1, "b"), "i16": (2, "i"), "u16": (2, "i"), "i32": (4, "i"), "u32": (4, "i"),
      "enum E": (4, "i"), "i64": (8, "i"), "u64": (8, "i"), "ll": (8, "i"), "float": (4, "f"), "double": (8, "f")}
INTS = ["i8", "u8", "char", "_Bool", "i16", "u16", "i32", "u32", "i64", "u64", "ll", "i32", "u32", "i64", "u64", "enum E"]
CCS = ["a", "ae", "b", "be", "c", "e", "z", "g", "ge", "l", "le", "na", "nae", "nb", "nbe", "nc", "ne", "ng", "nge", "nl", "nle", "no", "ns", "nz", "o", "s", "p", "np"]
SFX = {1: "b", 2: "w", 4: "l", 8: "q"}
MOD = {1: "b", 2: "w", 4: "k", 8: "q"}


def rn(r, n):
    if r.isdigit():
        return "%%%%r%s%s" % (r, {1: "b", 2: "w", 4: "d", 8: ""}[n])
    if n == 8:
        return "%%%%r%s" % r
    if n == 4:
        return "%%%%e%s" % r
    if n == 2:
        return "%%%%%s" % r
    return "%%%%%sl" % (r[0] if r[1] == "x" else r)


class Op:
    def __init__(self, cons, expr, ct, **k):
        self.cons, self.expr, self.ct = cons, expr, ct
        self.sz, self.k = CT.get(ct, (8, "p"))
        self.name = None
        self.match = None        # output this input is tied to
        self.bf = 0              # width of a bit-field
        self.reader = None       # custom reader
        self.imm = False
        for a in k:
            setattr(self, a, k[a])

    @property
    def rw(self):
        return self.cons[0] == "+"

    @property
    def early(self):
        return "&" in self.cons

    @property
    def maybe_mem(self):
        return any(c in self.cons for c in "mgoX")

    @property
    def only_mem(self):
        return self.maybe_mem and not any(c in self.cons for c in "rgqxRQX")


class Fn:
    def __init__(self, s, uid):
        self.s, self.uid = s, uid
        self.cl = set()
        self.top, self.decl, self.body, self.prints = [], [], [], []
        self.vars = []           # (lvalue text, type, bit-field width, memory allowed)
        self.nlab = 0
        self.idx = []
        self.nt = 0
        self.vla = self.alloca = False

    # ---- objects
    def const(self, ct, s):
        sz, k = CT[ct]
        if k == "b":
            return str(s.below(2))
        if k == "f":
            return s.choice(["1.5", "-2.25", "0.0", "3e5", "1e-3", "-7.0", "123456.0"]) + ("f" if ct == "float" else "")
        if ct == "enum E":
            return s.choice(["EA", "EB", "(enum E)5"])
        v = s.choice([0, 1, -1, 5, 127, 128, 255, 256, 32767, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, -2**31, 0x123456789abcdef, s.bits(60), -s.bits(40), s.below(100)])
        return "(%s)%s" % (ct, "%dll" % v)

    def setup(self):
        s, u = self.s, self.uid
        n = s.range(3, 8)
        self.args = []
        np_ = s.choice([0, 0, 2, 4, 7, 9])
        for i in range(np_):
            ct = s.choice(INTS + ["float", "double"])
            nm = "p%d" % i
            self.args.append((ct, nm, self.const(ct, s)))
            self.vars.append((nm, ct, 0, True))
        if s.chance(12):
            self.vla = True
            self.decl.append("int vn = 5 + (int)id(2); i32 vla[vn]; for (int i = 0; i < vn; i++) vla[i] = i * 37 + 1;")
            self.vars.append(("vla[%d]" % s.below(5), "i32", 0, True))
            self.prints.append("for (int i = 0; i < vn; i++) P(vla[i]);")
            self.cl.add("vla")
        if s.chance(12):
            self.alloca = True
            self.decl.append("i64 *al = __builtin_alloca(%d * id(8)); for (int i = 0; i < 4; i++) al[i] = i * 91 + 7;" % s.range(4, 9))
            self.vars.append(("al[%d]" % s.below(4), "i64", 0, True))
            self.prints.append("for (int i = 0; i < 4; i++) P(al[i]);")
            self.cl.add("alloca")
        if s.chance(15):
            self.decl.append("_Alignas(%d) u64 ov = 77;" % s.choice([32, 64, 128]))
            self.vars.append(("ov", "u64", 0, True))
            self.prints.append("P(ov); P((u64)&ov %% %d);" % 32)
            self.cl.add("over-aligned")
        for i in range(n):
            ct = s.choice(INTS + ["float", "double"])
            k = s.below(9)
            c = self.const(ct, s)
            if k < 3:
                self.decl.append("%s%s l%d = %s;" % (s.choice(["", "", "volatile ", "register "]) if k else "", ct, i, c))
                self.vars.append(("l%d" % i, ct, 0, not self.decl[-1].startswith("register")))
                self.pr("l%d" % i, ct)
            elif k == 3:
                st = s.choice(["static ", "", "static _Thread_local "])
                self.top.append("%s%s g%d_%d = %s;" % (st, ct, u, i, c))
                self.vars.append(("g%d_%d" % (u, i), ct, 0, True))
                self.pr("g%d_%d" % (u, i), ct)
                self.cl.add("tls object" if "Thread" in st else "global")
            elif k == 4:
                self.decl.append("%s a%d[%d] = { %s };" % (ct, i, s.choice([3, 4, 9, 300]), ", ".join(self.const(ct, s) for _ in range(3))))
                self.decl.append("int x%d = %d;" % (i, s.below(3)))
                self.vars.append((s.choice(["a%d[%d]" % (i, s.below(3)), "a%d[x%d]" % (i, i), "*(a%d + x%d)" % (i, i)]), ct, 0, True))
                self.prints.append("for (int i = 0; i < 3; i++) { %s }" % self.prt("a%d[i]" % i, ct))
                self.prints.append("P(x%d);" % i)
            elif k == 5:
                self.decl.append("%s t%d[2] = { %s, %s }, *q%d = t%d + id(1);" % (ct, i, c, self.const(ct, s), i, i))
                self.vars.append((s.choice(["*q%d", "q%d[-1]", "(*q%d)", "q%d[0]"]) % i, ct, 0, True))
                self.prints.append("for (int i = 0; i < 2; i++) { %s } P(q%d - t%d);" % (self.prt("t%d[i]" % i, ct), i, i))
                self.cl.add("pointer operand")
            else:
                g = s.chance(30)
                v = "s%d_%d" % (u, i)
                (self.top if g else self.decl).append("%sS %s = { 3, \"abc\", 0x1122334455667788, 2.5, -1.5f, -7, 9, 700, -100, 0x1f12345678, -5000000, 1, { { 5, -6, 7 } } };" % ("static " if g else "", v))
                acc = v + "."
                if s.chance(40):
                    self.decl.append("S *ps%d = &%s;" % (i, v))
                    acc = "ps%d->" % i
                for _ in range(s.range(1, 2)):
                    m, ct2, w = s.choice([("a", "i32", 0), ("b[2]", "char", 0), ("c", "u64", 0), ("d", "double", 0), ("f", "float", 0), ("h", "i16", 0), ("z", "_Bool", 0), ("in.m[1]", "i16", 0),
                                        ("bf1", "u32", 5), ("bf2", "u32", 11), ("bf3", "i32", 9), ("bf4", "u64", 37), ("bf5", "i32", 27)])
                    if all(x[0] != acc + m for x in self.vars):
                        self.vars.append((acc + m, ct2, w, not w))
                self.prints.append("{ S *q = &%s; P(q->a); PB(q->b, 5); P(q->c); PF(q->d); PFF(q->f); P(q->h); P(q->bf1); P(q->bf2); P(q->bf3); P(q->bf4); P(q->bf5); P(q->z); PB(&q->in, 6); }" % v)
                self.cl.add("member operand")
        for ct, nm, _ in self.args:
            self.pr(nm, ct)
        self.decl.append("i64 guard[3] = { 0x5a5a5a5a5a, 0x1212121212, 0x7f7f7f7f };")
        self.prints.append("P(guard[0] + guard[1] * 3 + guard[2] * 5);")

    def prt(self, e, ct):
        return {"float": "PFF(%s);", "double": "PF(%s);"}.get(ct, "P((ull)(%s));") % e

    def pr(self, e, ct):
        self.prints.append(self.prt(e, ct))

    def rval(self, ct):
        """An expression of type ct without side effects on the objects."""
        s = self.s
        c = [v for v in self.vars if CT[v[1]][1] == CT[ct][1]] or None
        k = s.below(7)
        if CT[ct][1] == "f":
            if k < 3 and c:
                return "(%s)(%s)" % (ct, s.choice(c)[0]) if s.chance(60) else "(%s)idd(%s)" % (ct, s.choice(["1.5", "-3.25"]))
            return self.const(ct, s)
        iv = [v for v in self.vars if CT[v[1]][1] != "f"]
        if k < 3 and iv:
            v = s.choice(iv)
            return "(%s)%s" % (ct, v[0]) if s.chance(50) else "(%s)(%s %s %s)" % (ct, v[0], s.choice("+^&-|"), self.const("i32", s))
        if k == 3:
            return "(%s)id(%s)" % (ct, self.const("i32", s))
        if k == 4 and len(iv) > 1:
            return "(%s)(%s ? %s : %s)" % (ct, s.choice(iv)[0], s.choice(iv)[0], self.const("i32", s))
        return "(%s)(%s)" % (ct, self.const(ct, s))

    # ---- the general statement
    def mix(self, goto=None):
        """Text of an asm statement over a random operand list."""
        s = self.s
        self.cl.add("operand list")
        budget = 10
        free = list(GP)
        acc = free.pop(s.below(len(free)))
        quse = sum(1 for r in (acc,) if r in ("ax", "bx", "cx", "dx"))
        low = [r for r in free if not r.isdigit()]
        tmp = s.choice(low)
        free.remove(tmp)
        quse += tmp in ("ax", "bx", "cx", "dx")
        budget -= 2
        clob = [acc, tmp]
        xclob = []
        for _ in range(s.choice([0, 0, 1, 2, 4])):
            r = s.choice(free)
            if r in ("ax", "bx", "cx", "dx"):
                if quse >= 2:
                    continue
                quse += 1
            free.remove(r)
            clob.append(r)
            budget -= 1
        # fixed registers: only those that nobody clobbers
        infix = [r for r in free if r in FIX]
        outfix = list(infix)
        objs = list(self.vars)
        outs, ins = [], []
        late_rm = False
        for _ in range(s.choice([0, 1, 1, 2, 2, 3, 4])):
            if not objs or budget <= 1:
                break
            v = objs.pop(s.below(len(objs)))
            lv, ct, bf, memok = v
            f = CT[ct][1] == "f"
            rw = s.chance(35)
            k = s.below(10)
            early = s.chance(30)
            if k < 3 and memok and not bf:
                o = Op(("+" if rw else "=") + s.choice(["m", "m", "o", "m"]), lv, ct)
                budget -= 1
            elif f:
                o = Op(("+" if rw else "=") + ("&" if early else "") + s.choice(["x", "x", "v" if 0 else "x"]), lv, ct)
                if k == 9 and memok and (early or not late_rm) and ct == "double":
                    o.cons += "m"
                    late_rm = late_rm or not early
                    budget -= 1
            elif k == 3 and outfix and not early:
                r = s.choice(outfix)
                if r in ("ax", "bx", "cx", "dx"):
                    if quse >= 3:
                        continue
                    quse += 1
                outfix.remove(r)
                if rw:
                    infix.remove(r) if r in infix else None
                o = Op(("+" if rw else "=") + FIX[r], lv, ct, fixed=r)
                budget -= 1
                self.cl.add("fixed output")
            elif k == 4 and memok and not bf and (early or not late_rm):
                o = Op(("+" if rw else "=") + ("&" if early else "") + s.choice(["rm", "g", "mr"]), lv, ct)
                late_rm = late_rm or not early
                budget -= 1
            elif k == 5 and quse < 3:
                o = Op(("+" if rw else "=") + ("&" if early else "") + "Q", lv, ct)
                quse += 1
                budget -= 1
            else:
                o = Op(("+" if rw else "=") + ("&" if early else "") + s.choice(["r", "r", "r", "q", "R"]), lv, ct)
                budget -= 1
            o.bf = bf
            if bf:
                self.cl.add("bit-field output")
            outs.append(o)
        if any("R" in o.cons for o in outs) and budget < 5:
            for o in outs:
                o.cons = o.cons.replace("R", "r")
        xin = 0
        need_mem = False
        for _ in range(s.choice([0, 1, 1, 2, 3, 4, 5])):
            if budget <= 0:
                break
            k = s.below(15)
            tied = {o.match for o in ins if o.match is not None}
            if k == 0:
                ct = s.choice(["float", "double"])
                o = Op("x", self.rval(ct), ct)
                xin += 1
            elif k == 1 and outs:
                j = s.below(len(outs))
                o_ = outs[j]
                if o_.rw or o_.maybe_mem or j in tied or o_.bf:
                    continue
                if getattr(o_, "fixed", None) and o_.fixed not in infix:
                    continue
                ct = o_.ct if s.chance(60) or CT[o_.ct][1] == "f" else s.choice([c for c in INTS if CT[c][0] <= o_.sz])
                if CT[ct][0] != o_.sz or CT[ct][1] != o_.k:
                    ct = o_.ct
                o = Op(str(j), self.rval(ct), ct, match=j)
                if getattr(o_, "fixed", None):
                    infix.remove(o_.fixed)
                self.cl.add("matching operand")
            elif k == 2 and self.vars:
                mv = [v for v in self.vars if v[3] and not v[2]]
                if not mv:
                    continue
                v = s.choice(mv)
                if any(o.expr == v[0] and not o.maybe_mem for o in outs) and s.chance(50):
                    continue
                o = Op(s.choice(["m", "o", "m"]), v[0], v[1])
                budget -= 1
            elif k == 3:
                o = Op(s.choice(["i", "n", "ri", "rn", "g", "rmi"]), self.const(s.choice(["i32", "u8", "i16", "u32", "i64"]), s), "i32")
                ct = o.expr[1:].split(")")[0]
                o.ct, (o.sz, o.k) = ct, CT[ct]
                o.imm = True
                budget -= 1
                self.cl.add("immediate")
            elif k == 4:
                c, v = s.choice([("I", s.below(32)), ("J", s.below(64)), ("N", s.below(256)), ("K", s.range(-128, 127)), ("M", s.below(4)), ("L", s.choice([255, 65535])), ("i", s.range(-1000, 1000)), ("I", s.below(32))])
                o = Op(c, s.choice(["%d", "(%d)", "%d + 0", "(int)sizeof(char[1]) * %d"]) % v, "i32", imm=True, narrow=c)
                self.cl.add("immediate")
            elif k == 5 and infix:
                r = s.choice(infix)
                if r in ("ax", "bx", "cx", "dx"):
                    if quse >= 3:
                        continue
                    quse += 1
                if any(getattr(x, "fixed", None) == r and (x.early or x.rw) for x in outs):
                    continue
                infix.remove(r)
                ct = s.choice(INTS)
                o = Op(FIX[r], self.rval(ct), ct, fixed=r)
                budget -= 1
                self.cl.add("fixed input")
            elif k == 6 and quse < 3:
                ct = s.choice(["i16", "u16", "i32", "u32", "i64"])
                o = Op("Q", self.rval(ct), ct)
                quse += 1
                budget -= 1
            elif k == 7:
                arr = s.choice(["guard", "&guard[1]", "\"hello\" + 1", "(char *)guard + 2", "idp(&guard[2])"])
                o = Op("r", arr, "ptr", reader="ptr")
                budget -= 1
                need_mem = True
                self.cl.add("address operand")
            elif k == 8:
                g = "si%d_%d" % (self.uid, len(self.top))
                self.top.append("static int %s[3] = { 11, 22, %d };" % (g, s.below(1000)))
                o = Op("i", s.choice(["&%s[1]", "&%s[0]", "&%s[2]"]) % g, "ptr", reader="sym")
                need_mem = True
                self.cl.add("symbolic operand")
            elif k == 9 and self.vars:
                mv = [v for v in self.vars if CT[v[1]][1] != "f"]
                if not mv:
                    continue
                v = s.choice(mv)
                o = Op("r" if v[2] or not v[3] else s.choice(["r", "rm", "g", "q", "X" if 0 else "r"]), v[0], v[1], bf=v[2])
                budget -= 1
            elif k == 10:
                ct = s.choice(["float", "double"])
                o = Op(s.choice(["xm", "mx"]), self.rval(ct), ct)
                xin += 1
            else:
                ct = s.choice(INTS)
                o = Op(s.choice(["r", "r", "r", "q", "rm", "g"]), self.rval(ct), ct)
                budget -= 1
            ins.append(o)
        flag = None
        if objs and s.chance(20) and not goto:
            iv = [v for v in objs if CT[v[1]][1] in "ib" and v[1] != "enum E" and not v[2] and "volatile" not in v[0]]
            if iv:
                v = s.choice(iv)
                flag = Op("=@cc" + s.choice(CCS), v[0], v[1])
                outs.insert(s.below(len(outs) + 1), flag)
                fi = outs.index(flag)
                for o in ins:
                    if o.match is not None and o.match >= fi:
                        o.match += 1
                        o.cons = str(o.match)
                self.cl.add("flag output")
        ops = outs + ins
        xtmp = any(o.k == "f" and ("m" in o.cons) for o in ins) or any(o.k == "f" and o.rw and "m" in o.cons and "x" in o.cons for o in outs) or s.chance(15)
        if xtmp:
            xclob.append(s.choice(["xmm0", "xmm1", "xmm7", "xmm8", "xmm15"]))
            for _ in range(s.choice([0, 0, 1, 3])):
                x = "xmm%d" % s.below(16)
                if x not in xclob:
                    xclob.append(x)
            self.cl.add("xmm clobber")
        for i, o in enumerate(ops):
            if s.chance(25):
                o.name = "n%d" % i if s.chance(70) else s.choice(["a", "ab", "abc", "x", "n"]) + "_" * 0 + "%d" % i
                self.cl.add("named operand")
        T = []

        def ref(i, mod=""):
            o = ops[i]
            return "%" + mod + ("[%s]" % o.name if o.name and s.chance(80) else str(i))

        # phase 0: everything the statement says it destroys
        for r in clob[2:]:
            T.append("movq $0x%x, %s" % (s.bits(30) | 1, rn(r, 8)))
        for x in xclob:
            T.append("pcmpeqd %%%%%s, %%%%%s" % (x, x))
        tied = {o.match for o in ins if o.match is not None}
        for i, o in enumerate(outs):
            if o.early and not o.rw and i not in tied and not o.maybe_mem and s.chance(85):
                self.cl.add("early clobber")
                if o.k == "f":
                    T.append("pcmpeqd %s, %s" % (ref(i), ref(i)))
                else:
                    T.append("movl $0x%x, %s" % (s.bits(30), ref(i, "k")))
        # phase 1: read
        T.append("movl $%d, %s" % (s.bits(20), rn(acc, 4)))
        order = [i for i, o in enumerate(ops) if o is not flag and (i >= len(outs) or o.rw)]
        for a in range(len(order) - 1, 0, -1):
            b = s.below(a + 1)
            order[a], order[b] = order[b], order[a]
        for i in order:
            o = ops[i]
            n = o.sz
            pure = not o.maybe_mem and not o.imm and "i" not in o.cons and "n" not in o.cons
            if o.reader == "ptr":
                T.append("movzbl (%s), %s" % (ref(i, s.choice(["", "q"])), rn(tmp, 4)))
            elif o.reader == "sym":
                T.append("movl %s(%%%%rip), %s" % (ref(i, "c"), rn(tmp, 4)))
            elif o.k == "f":
                if o.only_mem:
                    T.append("mov%s %s, %s" % (SFX[n], ref(i), rn(tmp, n)))
                elif "m" in o.cons:
                    T.append("mov%s %s, %%%%%s" % ("ss" if n == 4 else "sd", ref(i), xclob[0]))
                    T.append("mov%s %%%%%s, %s" % ("d" if n == 4 else "q", xclob[0], rn(tmp, n)))
                else:
                    T.append("mov%s %s, %s" % ("d" if n == 4 else "q", ref(i), rn(tmp, n)))
            elif getattr(o, "narrow", None):
                c = o.narrow
                if c in "IJ" and s.chance(60):
                    T.append("rolq %s, %s" % (ref(i), rn(acc, 8)))
                    continue
                if s.chance(50):
                    T.append("leaq %s(%s), %s" % (ref(i, "c"), rn(acc, 8), rn(acc, 8)))
                    continue
                T.append("movl %s, %s" % (ref(i), rn(tmp, 4)) if s.chance(50) else "movl $%s, %s" % (ref(i, "c"), rn(tmp, 4)))
            elif o.bf:
                m = 8 if o.sz == 8 else 4
                T.append("mov%s %s, %s" % (SFX[m], ref(i, MOD[m]), rn(tmp, m)))
                T.append("shlq $%d, %s" % (64 - o.bf, rn(tmp, 8)))
            elif pure and "Q" in o.cons and n >= 2 and s.chance(70):
                T.append("movzbl %s, %s" % (ref(i, "h"), rn(tmp, 4)))
                self.cl.add("high byte")
            elif pure and s.chance(50):
                m = s.choice([x for x in (1, 2, 4, 8) if x <= n])
                T.append("xorl %s, %s" % (rn(tmp, 4), rn(tmp, 4)))
                T.append("mov%s %s, %s" % (s.choice([SFX[m], SFX[m], ""]), ref(i, MOD[m]), rn(tmp, m)))
                self.cl.add("modifier")
            else:
                T.append("xorl %s, %s" % (rn(tmp, 4), rn(tmp, 4)))
                T.append("mov%s %s, %s" % (s.choice([SFX[n], SFX[n], ""]), ref(i), rn(tmp, n)))
            T.append("imulq $%d, %s, %s" % (s.choice([3, 5, 31, 257, 65599, -7]), rn(acc, 8), rn(acc, 8)))
            T.append("%s %s, %s" % (s.choice(["addq", "xorq", "subq"]), rn(tmp, 8), rn(acc, 8)))

        def put(i):
            o = ops[i]
            n = o.sz
            m = ref(i)
            T.append("rolq $%d, %s" % (s.range(5, 40), rn(acc, 8)))
            if o.k == "f":
                T.append("movq %s, %s" % (rn(acc, 8), rn(tmp, 8)))
                T.append("shr%s $2, %s" % (SFX[n], rn(tmp, n)))
                if o.only_mem:
                    T.append("mov%s %s, %s" % (SFX[n], rn(tmp, n), m))
                elif o.maybe_mem:
                    T.append("movq %s, %s" % (rn(tmp, 8), m))
                else:
                    T.append("mov%s %s, %s" % ("d" if n == 4 else "q", rn(tmp, n), m))
                return
            src = acc
            if o.k == "b" or o.ct == "enum E":
                T.append("movl %s, %s" % (rn(acc, 4), rn(tmp, 4)))
                T.append("andl $1, %s" % rn(tmp, 4))
                src = tmp
            if o.bf:
                w = 8 if o.sz == 8 else 4
                T.append("mov%s %s, %s" % (SFX[w], rn(src, w), ref(i, MOD[w])))
                return
            if o.only_mem or o.maybe_mem:
                if o.rw and o.k == "i" and o.ct != "enum E" and s.chance(50):
                    T.append("%s%s %s, %s" % (s.choice(["add", "xor", "sub", "or"]), SFX[n], rn(src, n), m))
                else:
                    T.append("mov%s %s, %s" % (s.choice([SFX[n], ""]), rn(src, n), m))
                return
            if o.rw and o.k == "i" and o.ct != "enum E" and s.chance(50):
                w = s.choice([x for x in (1, 2, 4, 8) if x <= n and x != 4 or x == n])
                T.append("%s%s %s, %s" % (s.choice(["add", "xor", "mov"]), SFX[w], rn(src, w), ref(i, MOD[w])))
                return
            w = s.choice([n, n, 4 if n < 4 else n, 8])
            T.append("mov%s %s, %s" % (SFX[w], rn(src, w), m if w == n and s.chance(70) else ref(i, MOD[w])))
            if "Q" in o.cons and n >= 2 and not tmp.isdigit() and tmp in ("ax", "bx", "cx", "dx") and s.chance(50):
                T.append("movl %s, %s" % (rn(acc, 4), rn(tmp, 4)))
                T.append("movb %s, %s" % (rn(tmp, 1), ref(i, "h")))

        ws = [i for i, o in enumerate(outs) if o is not flag]
        for i in [i for i in ws if outs[i].only_mem]:
            put(i)
        for i in [i for i in ws if outs[i].maybe_mem and not outs[i].only_mem and outs[i].early]:
            put(i)
        for i in [i for i in ws if outs[i].maybe_mem and not outs[i].only_mem and not outs[i].early]:
            put(i)
        rest = [i for i in ws if not outs[i].maybe_mem]
        for a in range(len(rest) - 1, 0, -1):
            b = s.below(a + 1)
            rest[a], rest[b] = rest[b], rest[a]
        for i in rest:
            put(i)
        labs = ""
        if flag:
            w = s.choice([1, 2, 4, 8])
            T.append("movl %s, %s" % (rn(acc, 4), rn(tmp, 4)))
            T.append("rolq $13, %s" % rn(tmp, 8))
            T.append("%s%s %s, %s" % (s.choice(["cmp", "add", "test", "sub"]), SFX[w], rn(tmp, w), rn(acc, w)))
        if goto:
            nplus = sum(1 for o in outs if o.rw)
            for j, l in enumerate(goto):
                T.append("%s $%d, %s" % ("btq", s.below(60), rn(acc, 8)))
                T.append("jc %%l%s" % ("[%s]" % l if s.chance(60) else str(len(ops) + nplus + j)))
            labs = " : " + ", ".join(goto)
            self.cl.add("asm goto" + (" with outputs" if outs else ""))
        cls = ["\"%s%s\"" % (s.choice(["", "%"]), {True: "r" + r, False: s.choice(["r", "e", ""]) + r}[r.isdigit()]) for r in clob]
        cls += ["\"%s%s\"" % (s.choice(["", "%"]), x) for x in xclob]
        if not flag and s.chance(70):
            cls.append("\"cc\"")
        if need_mem or s.chance(20):
            cls.append("\"memory\"")
        for a in range(len(cls) - 1, 0, -1):
            b = s.below(a + 1)
            cls[a], cls[b] = cls[b], cls[a]
        sep = s.choice(["; ", "\\n\\t", "\\n"])
        tmpl = "\"%s\"" % sep.join(T) if s.chance(60) else " ".join("\"%s%s\"" % (t, sep) for t in T)

        def fmt(o):
            return "%s\"%s\"(%s)" % ("[%s] " % o.name if o.name else "", o.cons, o.expr)

        head = s.choice(["__asm__", "__asm"]) + (s.choice([" goto", " volatile goto"]) if goto else s.choice([" volatile", " __volatile__", " volatile"] + ([""] if outs else [])))
        return "%s(%s : %s : %s : %s%s);" % (head, tmpl, ", ".join(fmt(o) for o in outs), ", ".join(fmt(o) for o in ins), ", ".join(cls), labs)

    # ---- idioms with fixed instructions
    def idiom(self):
        s = self.s
        self.nt += 1
        n = self.nt
        k = s.below(22)
        iv = [v for v in self.vars if CT[v[1]][1] == "i" and v[1] != "enum E" and not v[2]]
        fv = [v for v in self.vars if CT[v[1]][1] == "f"]
        x = self.rval("u64")
        y = self.rval("u64")
        D = "{ u64 u%d = %s, w%d = %s, r%d = 5; u32 k%d = (u32)w%d; double d%d = %s; long double e%d = %s; " % (n, x, n, y, n, n, n, n, self.rval("double"), n, s.choice(["1.25L", "3.5L", "0.125L", "(long double)d%d" % n, "vol"]))
        E = " P(u%d); P(w%d); P(r%d); P(k%d); PF(d%d); PL(e%d); }" % (n, n, n, n, n, n)
        A = "__asm__ volatile"
        v = {"u": "u%d" % n, "w": "w%d" % n, "r": "r%d" % n, "k": "k%d" % n, "d": "d%d" % n, "e": "e%d" % n}
        if k == 0:
            t = A + "(\"mulq %3\" : \"=a\"($r), \"=d\"($u) : \"" + s.choice("0a") + "\"($u), \"" + s.choice(["r", "rm", "m"]) + "\"($w) : \"cc\");"
            self.cl.add("mul")
        elif k == 1:
            t = A + "(\"divl %4\" : \"=a\"($r), \"=d\"($w) : \"0\"((u64)k" + str(n) + "), \"1\"(0ul), \"" + s.choice(["r", "rm"]) + "\"(17 + (int)vol) : \"cc\");"
        elif k == 2:
            t = A + "(\"bswapq %0\" : \"+r\"($u)); " + A + "(\"bsrq %1, %0\" : \"=r\"($r) : \"r" + s.choice(["", "m"]) + "\"($w | 1) : \"cc\");"
            t = t.replace('"rm"', '"r"')
        elif k == 3:
            t = A + "(\"xchgq %0, %1\" : \"+r\"($u), \"+m\"($w));"
        elif k == 4:
            t = A + "(\"lock xaddl %0, %1\" : \"+r\"($k), \"+m\"(*(u32 *)guard) : : \"cc\", \"memory\");" + " guard[0] = 0x5a5a5a5a5a;"
            t = A + "(\"lock; xaddl %0, %1\" : \"+r\"($k), \"+m\"(r32$u) : : \"cc\", \"memory\");"
            t = "u32 r32$u = 77; " + t + " P(r32$u);"
        elif k == 5:
            t = ("_Bool ok$u; " if s.chance(50) else "int ok$u; ") + A + "(\"lock; cmpxchgq %3, %1\" : \"+a\"($u), \"+m\"($w), \"=@cc" + s.choice(["z", "e", "nz", "ne"]) + "\"(ok$u) : \"r\"($r) : \"memory\"); P(ok$u);"
            self.cl.add("flag output")
        elif k == 6:
            t = "char s1$u[20] = \"abcdefghijklmnop\", s2$u[20] = {0}; void *dp = s2$u + 1, *sp = s1$u + 2; u64 n$u = 3 + ($w & 7); " + A + \
                "(\"rep movsb\" : \"+D\"(dp), \"+S\"(sp), \"+c\"(n$u) : : \"memory\"); PB(s2$u, 20); P((char *)dp - s2$u); P((char *)sp - s1$u); P(n$u);"
            self.cl.add("string instruction")
        elif k == 7:
            t = "int b$u[9] = {0}; void *dp = b$u; " + A + "(\"rep stosl\" : \"=D\"(dp), \"=c\"($r) : \"0\"(dp), \"1\"(5l), \"a\"((int)$w) : \"memory\"); PB(b$u, 36); P((char *)dp - (char *)b$u);"
            self.cl.add("string instruction")
        elif k == 8:
            t = A + "(\"" + s.choice(["shlq", "shrq", "sarq", "rolq"]) + " %%cl, %0\" : \"" + s.choice(["+r", "+m", "+rm"]) + "\"($u) : \"c\"((u8)$w) : \"cc\");"
        elif k == 9:
            t = A + "(\"addq %2, %0\\n\\tadcq %3, %1\" : \"+&r\"($u), \"+r\"($w) : \"" + s.choice(["rm", "r", "m"]) + "\"($r), \"rme\"($r) : \"cc\");"
            t = t.replace('"rme"', s.choice(['"r"', '"rm"', '"ri"']))
        elif k == 10:
            t = A + "(\"" + s.choice(["fchs", "fabs", "fsqrt", "fld1; faddp"]) + "\" : \"=t\"($e) : \"0\"($e < 0 ? -$e : $e));"
            self.cl.add("x87")
        elif k == 11:
            t = A + "(\"" + s.choice(["fyl2x", "fpatan"]) + "\" : \"=t\"($d) : \"0\"((double)(k" + str(n) + " % 100 + 2)), \"u\"((double)(vol + 1)) : \"st(1)\");"
            self.cl.add("x87")
        elif k == 12:
            t = "long double c$u; double s$u; " + A + "(\"" + s.choice(["fxtract", "fsincos"]) + "\" : \"=t\"(c$u), \"=u\"(s$u) : \"0\"(1.5L * vol)); PL(c$u); PF(s$u);"
            self.cl.add("x87")
        elif k == 13:
            t = A + "(\"fscale\" : \"+t\"($e) : \"u\"((" + s.choice(["float", "double", "long double"]) + ")(vol + " + str(s.below(9)) + ")));"
            self.cl.add("x87")
        elif k == 14:
            t = "long long q$u = 1; " + A + "(\"fistpll %0\" : \"=m\"(q$u) : \"t\"((" + s.choice(["float", "double", "long double"]) + ")(vol * 1000.0)) : \"st\"" + s.choice(["", ", \"memory\""]) + "); P(q$u);"
            self.cl.add("x87")
        elif k == 15:
            t = A + "(\"" + s.choice(["fadd", "fmul", "fsub"]) + " %1, %0\" : \"+t\"($e) : \"" + s.choice(["f", "u"]) + "\"((long double)(vol + 2)));"
            self.cl.add("x87")
        elif k == 16:
            t = "double z$u = " + self.rval("double") + "; " + A + "(\"" + s.choice(["addsd", "mulsd", "subsd"]) + " %1, %0\" : \"+x\"($d) : \"" + s.choice(["x", "xm", "m"]) + "\"(z$u)); PF(z$u);"
            self.cl.add("sse")
        elif k == 17:
            t = A + "(\"cvttsd2siq %2, %0\\n\\tcvtsi2sdq %3, %1\" : \"=&r\"($r), \"=x\"($d) : \"" + s.choice(["x", "xm"]) + "\"(idd(1234.5)), \"" + s.choice(["r", "rm"]) + "\"((i64)$w));"
            t = t.replace("\"=x\"", "\"=&x\"") if s.chance(50) else t.replace("%3", "%3").replace("\"=x\"", "\"=&x\"")
            self.cl.add("sse")
        elif k == 18:
            r1, r2 = s.choice([("r10", "r12"), ("r8", "rbx"), ("rdi", "rsi"), ("r15", "r9"), ("rcx", "r11"), ("eax", "rdx")])
            t = "register " + ("int" if r1[0] == "e" else "long") + " ra __asm__(\"" + r1 + "\") = (long)$u; register long rb __asm__(\"" + r2 + "\") = 9; " + A + "(\"" + \
                ("addl %1, %0; imull $3, %0" if r1[0] == "e" else "addq %1, %0; imulq $3, %0").replace("%1", "%k1" if r1[0] == "e" else "%1") + "\" : \"+r\"(ra) : \"r\"(rb) : \"cc\"); $r = ra;"
            self.cl.add("register variable")
        elif k == 19:
            t = A + "(\"\" : \"=" + s.choice(["r", "a", "S", "x" if 0 else "r", "&r"]) + "\"($r) : \"0\"($u)); " + A + "(\"\" : \"+" + s.choice(["r", "m", "g", "rm"]) + "\"($w)); " + A + "(\"\" ::: \"memory\"); " + A + "(\"nop\"); " + A + "(\"\" : : \"r\"(guard), \"g\"($w) : \"memory\");"
            self.cl.add("empty template")
        elif k == 20:
            t = "long (*fp$u)(long) = 0; " + A + "(\"movq %1, %0\" : \"=" + s.choice(["r", "m", "b"]) + "\"(fp$u) : \"r\"(" + s.choice(["id", "&id"]) + ")); $r = fp$u(41);"
            self.cl.add("function operand")
        else:
            t = A + "(\"movq %1, %%rax; xorq %2, %%rax; movq %%rax, %0\" : \"=" + s.choice(["r", "m", "&r"]) + "\"($r) : \"" + s.choice(["r", "m", "g"]) + "\"($u), \"" + s.choice(["r", "m", "rm"]) + "\"($w) : \"rax\", \"" + "\", \"".join(
                s.choice([["rbx", "rcx", "rdx", "rsi", "rdi"], ["r8", "r9", "r10", "r11"], ["r12", "r13", "r14", "r15", "rbx"], ["xmm0", "xmm1", "xmm8", "r15"], ["rcx"]])) + "\", \"cc\");"
            self.cl.add("wide clobber")
        for c, x in v.items():
            t = t.replace("$" + c, x)
        return D + t + E

    # ---- context
    def stmt(self):
        s = self.s
        k = s.below(10)
        if k < 3:
            return self.idiom()
        if k == 3:
            self.nlab += 1
            l = ["la%d_%d" % (self.uid, self.nlab), "lb%d_%d" % (self.uid, self.nlab)][:s.range(1, 2)]
            a = self.mix(goto=l)
            return "{ int way = 0; %s way = 1; if (0) { %s: way |= 2; %s } P(way); }" % (a, l[0], "if (0) { %s: way |= 4; }" % l[1] if len(l) > 1 else "")
        if k == 4:
            a = self.mix()
            return "for (int it = 0; it < 2; it++) { %s }" % a
        if k == 5:
            a = self.mix()
            v = s.choice([x for x in self.vars if CT[x[1]][1] != "f"] or [("guard[0]", "i64", 0, True)])
            self.cl.add("inside an expression")
            k2 = s.below(5)
            if k2 == 0:
                return "P((ull)(id(3) * ({ %s (long)%s; }) + (tick() << 3)));" % (a, v[0])
            if k2 == 1:
                return "PF(idd(1.5) * ({ %s (long)%s; }) - 0.25 * idd(2));" % (a, v[0])
            if k2 == 2:
                return "P(mix6(tick(), ({ %s (long)%s; }), (int)id(4), idd(2.5), 6, (u8)id(3)));" % (a, v[0])
            if k2 == 3:
                return "guard[id(1)] += ({ %s 5; }); P(guard[1]); guard[1] = 0x1212121212;" % a
            return "{ S sa = { .a = (int)id(4), .d = 2.5 }; S sb = (S){ .c = ({ %s 77; }), .a = sa.a, .d = sa.d * 2 }; P(sb.c); PF(sb.d); P(sb.a); }" % a
        if k == 6:
            a = self.mix()
            return "switch (id(%d)) { case 1: %s P(1); break; case 2: P(2); /* fall */ default: %s }" % (s.below(4), a, "P(9);")
        if k == 7:
            a = self.mix()
            return "if (({ %s 1; }) && id(1)) P(3); else P(4);" % a
        return self.mix()

    def unit(self):
        s = self.s
        self.setup()
        for _ in range(s.range(1, 3)):
            self.body.append(self.stmt())
        u = self.uid
        sig = ", ".join("%s %s" % (c, n) for c, n, _ in self.args) or "void"
        code = "\n".join(self.top) + "\n__attribute__((noinline)) static void f%d(%s) {\n  %s\n  %s\n  %s\n}\n" % (
            u, sig, "\n  ".join(self.decl), "\n  ".join(self.body), "\n  ".join(self.prints))
        code += "static void c%d(void) { f%d(%s); }" % (u, u, ", ".join(v for _, _, v in self.args))
        return Unit(code, "P(chk_(c%d));" % u, sorted(self.cl))


class C24(UnitCheck):
    id = "C24"
    prelude = APRELUDE
    units_per_batch = 16
    batches = {"quick": 400, "thorough": 8000}
    use_san = False
    gcc_flags = [f for f in cc.GCC_FLAGS]
    technique = ("property-based testing: random operand lists around position-independent templates, differential oracle against gcc and clang "
                 "plus an invariant on callee-saved registers and the x87 stack after every function")
    rule = "a case is one function with one to three asm statements over generated operands; every case is non-trivial: all operands and all other live objects are printed"
    level_note = ("Random exploration with a fixed seed. Templates read every input, destroy every clobber and every early-clobber output first, and write outputs "
                  "last, so that any correct register assignment gives the same output; gcc -O0, gcc -O2 and clang must agree before a difference counts.")

    def gen_unit(self, src, uid):
        return Fn(src, uid).unit()


CHECK = C24()
