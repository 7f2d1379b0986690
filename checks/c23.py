"""C23: atomic operations. Single-threaded programs against gcc and clang; threads against invariants."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib.cexpr import ITYPES, BOOL, CHAR, INT, literal, interesting
from lib import cc

APRELUDE = '#include <stdatomic.h>\n#include <pthread.h>\n#include <sched.h>\n' + PRELUDE + r'''
static void PF(double x) { u64 u; memcpy(&u, &x, 8); printf("%lx\n", u); }
static int id(int x) { return x; } static void *idp(void *p) { return p; }
static long cnt; static long tick(void) { return ++cnt; }
static double mix(int a, double b, long c, float d) { return a + b - c + d; }
#if defined __slimcc__
#define FOP(T, name, p, v) atomic_fetch_##name(p, v)
#define FAP(p, n) atomic_fetch_add(p, n)
#define FSP(p, n) atomic_fetch_sub(p, n)
#else
#define OP_add +
#define OP_sub -
#define FOP(T, name, p, v) ({ T o_ = *(p); *(p) = o_ OP_##name (v); o_; })
#define FAP(p, n) ({ __typeof__(&**(p)) o_ = *(p); *(p) = o_ + (n); o_; })
#define FSP(p, n) ({ __typeof__(&**(p)) o_ = *(p); *(p) = o_ - (n); o_; })
#endif
#define NT 4
static _Thread_local u32 spins; static void relax(void) { if (++spins % 64 == 0) sched_yield(); }
static atomic_int gate;
static void meet(int n) { atomic_fetch_add(&gate, 1); while (atomic_load(&gate) < n) relax(); }
static void go(int n, void *(*f)(void *), void *arg, unsigned long sz) {
  pthread_t t[8]; gate = 0;
  for (int i = 0; i < n; i++) pthread_create(&t[i], 0, f, (char *)arg + i * sz);
  for (int i = 0; i < n; i++) pthread_join(t[i], 0);
}
static u32 rnd(u32 *s) { *s ^= *s << 13; *s ^= *s >> 17; *s ^= *s << 5; return *s; }
'''
MO = ["memory_order_relaxed", "memory_order_acquire", "memory_order_release", "memory_order_acq_rel", "memory_order_seq_cst"]
LOADMO = ["memory_order_relaxed", "memory_order_acquire", "memory_order_seq_cst"]
STOREMO = ["memory_order_relaxed", "memory_order_release", "memory_order_seq_cst"]
TD = {"_Bool": "atomic_bool", "char": "atomic_char", "signed char": "atomic_schar", "unsigned char": "atomic_uchar", "short": "atomic_short",
      "unsigned short": "atomic_ushort", "int": "atomic_int", "unsigned int": "atomic_uint", "long": "atomic_long", "unsigned long": "atomic_ulong",
      "long long": "atomic_llong", "unsigned long long": "atomic_ullong"}


def qual(s, name):
    k = s.below(5)
    if k == 0:
        return "_Atomic(%s)" % name
    if k == 1 and name in TD:
        return TD[name]
    if k == 2:
        return name + " _Atomic"
    if k == 3:
        return "_Atomic volatile " + name if s.chance(30) else "volatile _Atomic(%s)" % name
    return "_Atomic " + name


class Single:
    """One function that applies a history of operations to a few atomic objects and prints everything."""

    def __init__(self, s, uid):
        self.s, self.uid = s, uid
        self.cl = set()
        self.top, self.loc, self.body, self.end = [], [], [], []
        self.n = 0
        self.objs = []          # (lvalue text, kind, type, pure)

    def kind(self):
        s = self.s
        k = s.below(12)
        if k < 7:
            return "i", s.choice(ITYPES)
        if k < 9:
            return "f", s.choice(["float", "double"])
        if k < 11:
            return "p", s.choice(["int", "char", "struct R%d" % self.uid, "double"])
        return "s", s.choice([1, 2, 4, 8])

    def decl(self):
        s, n = self.s, self.n
        self.n += 1
        kd, t = self.kind()
        u = self.uid
        if kd == "i":
            name = t.name
            v = interesting(s, t)
            if t.signed and not t.boolean and t.bits >= 32 and abs(v) > 10000000:
                v = v % 9973
            if t.boolean:
                v = v & 1
            ini = literal(s, t if t.rank >= 3 else INT, v, True)[0]
        elif kd == "f":
            name = t
            ini = s.choice(["0.0", "1.5", "-2.25", "100.0", "3", "7u"])
        elif kd == "p":
            name = None
            ini = s.choice(["arr%d_%s" % (u, t.split()[0]) + " + %d" % s.below(6), "&arr%d_%s[%d]" % (u, t.split()[0], s.below(7)), "0"])
            if ini == "0":
                ini = "&arr%d_%s[3]" % (u, t.split()[0])
        else:
            name = "struct S%d_%d" % (u, n)
            body = {1: "signed char a;", 2: s.choice(["char a, b;", "short a;"]), 4: s.choice(["short a, b;", "char a; short b;", "int a;"]),
                    8: s.choice(["int a, b;", "int a; char b;", "long a;", "double a;", "void *a;" if False else "float a, b;"])}[t]
            self.top.append("%s { %s };" % (name, body))
            ini = "{%d}" % s.below(100)
        d = (qual(s, name) + " %s") if kd != "p" else t + " *" + s.choice(["_Atomic ", "_Atomic volatile ", "volatile _Atomic "]) + "%s"
        if kd == "p" and s.chance(25):
            d = "_Atomic(%s *) %%s" % t
        form = s.below(9)
        self.cl.add("object: " + ["global", "static local", "local", "member", "array element", "through a pointer", "static member", "vla element" if False else "nested member", "const pointer"][form])
        v = "v%d_%d" % (u, n)
        pure = True
        if form == 0:
            self.top.append("%s%s = %s;" % (s.choice(["", "static "]), d % v, ini))
            lv = v
        elif form == 1:
            self.loc.append("static %s = %s;" % (d % v, ini))
            lv = v
        elif form == 2:
            self.loc.append("%s = %s;" % (d % v, ini))
            lv = v
        elif form == 3:
            pre = s.choice(["char c;", "long l;", "", "char c[3];"])
            self.loc.append("struct { %s %s; int z; } m%s = { %s.%s = %s };" % (pre, d % v, v, "", v, ini))
            lv = "m%s.%s" % (v, v)
            self.end.append("P(m%s.z);" % v)
        elif form == 4:
            self.loc.append("%s;" % (d % (v + "[3]")) + " %s[0] = %s; %s[1] = %s; %s[2] = %s;" % ((v, self.cini(name, ini), v, self.cini(name, ini), v, self.cini(name, ini))))
            self.loc.append("int i%s = 1;" % v)
            lv = s.choice(["%s[1]" % v, "%s[i%s]" % (v, v), "(*(%s + i%s))" % (v, v)])
            self.end.append(self.show("%s[0]" % v, kd, t) + self.show("%s[2]" % v, kd, t))
        elif form == 5:
            self.loc.append("%s = %s; %s = &%s;" % (d % v, ini, d % ("*p" + v), v))
            lv = "(*p%s)" % v
        elif form == 6:
            self.top.append("static struct { char c; %s[2]; } m%s = { 1, { %s, %s } };" % (d % v, v, ini, ini))
            lv = "m%s.%s[%d]" % (v, v, s.below(2))
            self.end.append("P(m%s.c);" % v)
        elif form == 7:
            self.loc.append("struct { int a; struct { char p; %s; } in; int z; } m%s = { 1, { 2, %s }, 3 }, *q%s = &m%s;" % (d % v, v, ini, v, v))
            lv = "q%s->in.%s" % (v, v)
            self.end.append("P(m%s.a + m%s.in.p * 2 + m%s.z * 4);" % (v, v, v))
        else:
            self.loc.append("%s = %s; %s = &%s;" % (d % v, ini, d % ("*const p" + v), v))
            lv = "p%s[0]" % v
        self.objs.append((lv, kd, t, name))
        # plain companion for compare-exchange
        if kd != "s":
            self.loc.append("%s = %s;" % ((name + " %s") % ("e" + v) if kd != "p" else "%s *e%s" % (t, v), ini))
        else:
            self.loc.append("%s e%s = %s;" % (name, v, ini))
        self.objs[-1] += ("e" + v,)

    def cini(self, name, ini):
        return "(%s)%s" % (name, ini) if ini.startswith("{") else ini

    def show(self, lv, kd, t):
        u = self.uid
        if kd == "i":
            return "P((ull)(%s));" % lv
        if kd == "f":
            return "PF(%s);" % lv
        if kd == "p":
            return 'printf("%%d\\n", (int)((char *)(%s) - (char *)arr%d_%s));' % (lv, u, t.split()[0])
        n = self.n
        self.n += 1
        st = [o[3] for o in self.objs if o[0] == lv]
        return "{ __typeof__(%s) tmp; memset(&tmp, 0, sizeof tmp); tmp = %s; P((ull)tmp.a); }" % ("*(%s *)0" % st[0], lv) if st else ";"

    def small(self, t):
        """an operand for += and friends that keeps every intermediate in range"""
        s = self.s
        k = s.below(8)
        v = s.range(-100, 100)
        if k < 3:
            return str(v)
        if k == 3:
            self.cl.add("operand with a call")
            return s.choice(["id(%d)", "(int)tick() + %d", "id(id(%d))"]) % v
        if k == 4:
            return "(%s)%d" % (s.choice(["signed char", "short", "int", "long", "unsigned char"]), v)
        if k == 5:
            return s.choice(["%du" % abs(v), "%dl" % v, "%dul" % abs(v), "'a'", "(_Bool)1"])
        if k == 6:
            self.cl.add("atomic operand")
            c = [o for o in self.objs if o[1] == "i" and o[2].bits <= 16]
            if c:
                return s.choice(["%s", "(%s & 31)", "-%s"]) % s.choice(c)[0]
            return "id(%d)" % v
        return "(%d, %d)" % (v, v // 2)

    def use(self, e, kd, t):
        """a statement that observes the value of an operation"""
        s = self.s
        k = s.below(8)
        self.cl.add("result: " + ["printed", "discarded", "converted", "in an expression", "as an argument", "as a condition", "initialiser", "type"][k])
        if kd == "s":
            return e + ";"
        if kd == "p":
            if k == 1:
                return e + ";"
            if k == 5:
                return "if (%s) P(1); else P(2);" % e
            return self.show(e, kd, t)
        if kd == "f":
            if k == 1:
                return e + ";"
            if k == 5:
                return "if (%s) P(1); else P(2);" % e
            if k == 3:
                return "PF(2.5 - (%s) * 2 + id(3));" % e
            if k == 4:
                return "PF(mix(id(2), %s, 3, 1.5f));" % e
            if k == 7:
                return "P(sizeof(%s));" % e
            return "PF(%s);" % e
        if k == 0:
            return "P((ull)(%s));" % e
        if k == 1:
            return e + ";"
        if k == 2:
            return s.choice(["P((ull)(long)(%s));", "PF(%s);", "P((u8)(%s));", "P((_Bool)(%s));"]) % e
        if k == 3:
            return s.choice(["P((ull)(id(7) + ((%s) & 0xffff) * 3));", "P((ull)(((%s) & 127) << id(2)));", "P((ull)((%s) > id(4)));", "P(((%s) == 5u) + 1);",
                             "P((ull)(cnt ^ (%s)));"]) % e
        if k == 4:
            return s.choice(["PF(mix(1, 2.5, %s, id(3)));", 'printf("%%d %%ld %%g\\n", id(1), (long)(%s), 2.5);']) % e
        if k == 5:
            return s.choice(["if (%s) P(1); else P(2);", "P((%s) ? 3 : 4);", "P(!(%s));", "P((%s) && id(1));", "switch ((int)(%s)) { case 0: P(1); break; case 1: P(2); break; default: P(3); }"]) % e
        if k == 6:
            return s.choice(["{ long t = %s; P((ull)t); }", "{ double t = %s; PF(t); }", "{ unsigned t = %s; P(t); }"]) % e
        return s.choice(["P(sizeof(%s));", "P(_Generic(%s, _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, default: 13));"]) % e

    def assignable(self, kd, t, name):
        """a value for plain assignment or exchange"""
        s = self.s
        if kd == "i":
            if t.boolean:
                return s.choice(["0", "1", "2", "256", "0.25", "id(0)", "id(-1)", "1.5f", "-0.0", "(u8)3"] + (["\"a\""] if False else []))
            k = s.below(7)
            if k < 3:
                v = s.range(-100, 100) if t.signed else s.range(0, 100)
                return s.choice(["%d", "%dl", "(short)%d", "%d.75" if v > 0 or t.signed else "%d.0", "id(%d)", "(i8)%d"]) % v
            if k == 3:
                return str(s.choice([127, 255, 256, 65535, 65536, 70000, -1, -129]) if not (t.signed and t.bits >= 32) else 9999)
            if k == 4:
                return "id(-%d)" % s.range(1, 100)
            if k == 5:
                return "(u8)%d" % s.below(256)
            c = [o for o in self.objs if o[1] == "i" and o[2].bits <= 16]
            return s.choice(c)[0] if c else "'x'"
        if kd == "f":
            return s.choice(["1", "2.5", "-3.25f", "id(7)", "4u", "1e3", "-0.5", "(char)9", "0x1p-3", "8l", "0.1", "0.1f", "(_Bool)1"])
        if kd == "p":
            a = "arr%d_%s" % (self.uid, t.split()[0])
            return s.choice([a, "&%s[%d]" % (a, s.below(6)), "%s + %d" % (a, s.below(6)), "idp(%s)" % a, "(void *)(%s + 1)" % a])
        return "(%s){%d}" % (name, s.below(100))

    def op(self):
        s = self.s
        lv, kd, t, name, e = s.choice(self.objs)
        u = self.uid
        addr = s.choice([lv[2:-1], "&" + lv]) if lv.startswith("(*p") else "&" + lv
        if s.chance(10):
            addr = {True: "(%s)" % addr, False: "(id(1), %s)" % addr}[s.chance(50)]
        k = s.below(14)
        if kd == "s":
            k = s.choice([0, 0, 4])
        if k < 2:
            self.cl.add("assign")
            return self.use("%s = %s" % (lv, self.assignable(kd, t, name)), kd, t)
        if k < 4:
            self.cl.add("exchange")
            v = self.assignable(kd, t, name)
            ex = "atomic_exchange(%s, %s)" % (addr, v) if s.chance(70) else "atomic_exchange_explicit(%s, %s, %s)" % (addr, v, s.choice(MO))
            return self.use(ex, kd, t)
        if k == 4:
            self.cl.add("load/store")
            if s.chance(50):
                v = self.assignable(kd, t, name)
                if kd == "s":
                    return "atomic_store(%s, (%s));" % (addr, v)
                return s.choice(["atomic_store(%s, %s);", "atomic_store_explicit(%s, %s, " + s.choice(STOREMO) + ");", "atomic_init(%s, %s);"]) % (addr, v)
            ld = s.choice(["atomic_load(%s)", "atomic_load_explicit(%s, " + s.choice(LOADMO) + ")"]) % addr
            if kd == "s":
                return "{ %s t = %s; P((ull)t.a); }" % (name, ld)
            return self.use(ld, kd, t)
        if k < 8:
            self.cl.add("compare-exchange")
            v = self.assignable(kd, t, name)
            w = s.choice(["strong", "weak"]) if False else "strong"
            pre = ""
            if s.chance(60):
                pre = "%s = %s; " % (e, lv)
            old = s.choice(["&" + e, "&" + e, "(id(2), &%s)" % e, "(%s *)idp(&%s)" % (name if kd != "p" else t + " *", e)])
            if "idp" in old:
                self.cl.add("pointer operand from a call")
            if s.chance(25):
                v = {"i": "id(3) + ((id(4) - 2) * (id(1) + 6))", "f": "mix(1, id(2) + (3.5 - id(1)) * 2, 4, 2)", "p": v}[kd]
                if kd == "i" and t.boolean:
                    v = "id(5) + 1"
            ce = "atomic_compare_exchange_%s%s(%s, %s, %s%s)" % (w, *s.choice([("", ""), ("_explicit", ", %s, memory_order_relaxed" % s.choice(MO))]), "") if False else None
            if s.chance(70):
                ce = "atomic_compare_exchange_%s(%s, %s, %s)" % (w, addr, old, v)
            else:
                ce = "atomic_compare_exchange_%s_explicit(%s, %s, %s, %s, memory_order_relaxed)" % (w, addr, old, v, s.choice(MO))
            u_ = s.choice(["P(%s);", "if (%s) P(1); else P(2);", "P(!%s);", "P(%s + id(3));", "PF(mix(%s, 1.5, 2, 3));"]) % ce
            return pre + u_ + " " + self.show(e, kd, t)
        if kd == "p":
            self.cl.add("pointer arithmetic")
            k = s.below(7)
            # keep inside the array: recentre first
            a = "arr%d_%s" % (u, t.split()[0])
            pre = "%s = %s + 4; " % (lv, a)
            n = s.range(-4, 4)
            ex = ["%s++" % lv, "++%s" % lv, "%s--" % lv, "--%s" % lv, "%s += %s" % (lv, s.choice(["%d", "id(%d)", "(short)%d", "%dl"]) % n), "%s -= %d" % (lv, n),
                  "%s(%s, %d)" % (s.choice(["FAP", "FSP"]), addr if "id(" not in addr else "&" + lv, n)][k]
            return pre + self.use("(%s)" % ex, kd, t)
        if kd == "f":
            k = s.below(7)
            self.cl.add("floating arithmetic")
            if k < 4:
                return self.use(["(%s++)", "(++%s)", "(%s--)", "(--%s)"][k] % lv, kd, t)
            if k == 6:
                return self.use("FOP(%s, %s, %s, %s)" % (t, s.choice(["add", "sub"]), "&" + lv, s.choice(["1", "2.5", "id(3)", "0.5f"])), kd, t)
            return self.use("(%s %s= %s)" % (lv, s.choice("+-*/"), s.choice(["2", "1.5", "4.0f", "id(3)", "-2l", "0.1", "0.3f"])), kd, t)
        # integers
        k = s.below(10)
        if t.boolean:
            self.cl.add("bool arithmetic")
            ex = s.choice(["%s |= %d", "%s &= %d", "%s ^= %d", "%s += %d", "%s -= %d"]) % (lv, s.below(3))
            if s.chance(20):
                ex = s.choice(["%s++", "++%s"]) % lv
            return self.use("(%s)" % ex, kd, t)
        if k < 2:
            self.cl.add("inc/dec")
            return self.use(s.choice(["(%s++)", "(++%s)", "(%s--)", "(--%s)"]) % lv, kd, t)
        if k < 5:
            self.cl.add("fetch")
            v = self.small(t)
            op = s.choice(["add", "sub", "or", "xor", "and"])
            if s.chance(70):
                return self.use("atomic_fetch_%s(%s, %s)" % (op, addr, v), kd, t)
            return self.use("atomic_fetch_%s_explicit(%s, %s, %s)" % (op, addr, v, s.choice(MO)), kd, t)
        self.cl.add("compound")
        op = s.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "f"])
        if op == "*":
            v = s.choice(["2", "3", "-1", "id(2)"])
            if t.signed and t.bits >= 32:
                return "%s &= 0xfffff; " % lv + self.use("(%s *= %s)" % (lv, v), kd, t)
        elif op in "/%":
            v = s.choice(["3", "7", "id(5)", "16", "10u", "127"])
        elif op in ("<<", ">>"):
            v = str(s.below(8)) if s.chance(60) else "id(%d)" % s.below(8)
            if op == "<<" and t.signed:
                return "%s &= 0x7f; " % lv + self.use("(%s <<= %s)" % (lv, v), kd, t)
        elif op == "f":
            if t.bits == 64:
                op, v = "&", "0xff"
            else:
                op, v = "*", s.choice(["0.5", "0.25f", "0.75"])
        else:
            v = self.small(t)
        return self.use("(%s %s= %s)" % (lv, op, v), kd, t)

    def once(self):
        """side effects in the lvalue happen once"""
        s, n, u = self.s, self.n, self.uid
        self.n += 1
        self.cl.add("side effects once")
        t = s.choice([x for x in ITYPES if not x.boolean])
        a = "w%d_%d" % (u, n)
        self.loc.append("%s; for (int i = 0; i < 6; i++) %s[i] = i * 5 + 1; int i%s = 1, j%s = 0; %s;" % (
            qual(s, t.name).replace("volatile ", "") + " %s[6]" % a, a, a, a, "__typeof__(&%s[0]) q%s = %s + 2" % (a, a, a)))
        lv = s.choice(["%s[i%s++]" % (a, a), "%s[++i%s]" % (a, a), "*q%s++" % a, "*--q%s" % a, "%s[(j%s++, 2)]" % (a, a), "*(__typeof__(q%s))idp(%s + (j%s += 3))" % (a, a, a),
                       "%s[tick() & 3]" % a])
        ex = s.choice(["(%s += %s)", "(%s = %s)", "(%s -= %s)", "(%s ^= %s)", "atomic_fetch_add(&%s, %s)", "atomic_exchange(&%s, %s)", "atomic_fetch_or(&%s, %s)"])
        ex = ex % (lv, s.choice(["3", "id(4)", "(j%s++, 5)" % a if "j%s" % a not in lv else "2", "tick()" if "tick" not in lv else "1"]))
        if s.chance(20):
            ex = s.choice(["((%s)++)", "(--(%s))"]) % lv
        return "P((ull)%s); P(i%s); P(j%s); P(q%s - %s); for (int i = 0; i < 6; i++) P((ull)%s[i]);" % (ex, a, a, a, a, a)

    def unit(self):
        s, u = self.s, self.uid
        self.top.append("struct R%d { char c[%d]; };" % (u, s.choice([1, 3, 12])))
        self.top.append("static int arr%d_int[9]; static char arr%d_char[9]; static struct R%d arr%d_struct[9]; static double arr%d_double[9];" % (u, u, u, u, u))
        for _ in range(s.range(1, 4)):
            self.decl()
        for _ in range(s.range(2, 8)):
            self.body.append(self.once() if s.chance(12) else self.op())
            if s.chance(30):
                o = s.choice(self.objs)
                self.body.append(self.show(o[0], o[1], o[2]))
        for o in self.objs:
            self.body.append(self.show(o[0], o[1], o[2]))
        code = "\n".join(self.top) + "\nstatic void f%d(void) {\n  %s\n  %s\n  %s\n}" % (u, "\n  ".join(self.loc), "\n  ".join(self.body), "\n  ".join(self.end))
        return Unit(code, "f%d();" % u, self.cl | {"single thread"}, True)


def where(s, u, decl, ini):
    """an object shared by threads: (file-scope text, lvalue usable anywhere, classes)"""
    k = s.below(7)
    v = "g%d" % u
    if k == 0:
        return "static %s = %s;" % (decl % v, ini), v
    if k == 1:
        return "static struct { char c; %s; } m%d = { 1, %s };" % (decl % v, u, ini), "m%d.%s" % (u, v)
    if k == 2:
        return "static %s = { %s, %s, %s };" % (decl % (v + "[3]"), ini, ini, ini), "%s[1]" % v
    if k == 3:
        return "static %s = %s; static %s = &%s;" % (decl % v, ini, decl % ("*p%d" % u), v), "(*p%d)" % u
    if k == 4:
        return "struct M%d { long a; %s; char z; }; static struct M%d m%d = { 1, %s, 2 }, *q%d = &m%d;" % (u, decl % v, u, u, ini, u, u), "q%d->%s" % (u, v)
    if k == 5:
        return "static %s = %s; static %s(void) { return &%s; }" % (decl % v, ini, decl % ("*a%d" % u), v), "(*a%d())" % u
    return "%s = %s;" % (decl % v, ini), v


class Threads:
    def __init__(self, s, uid):
        self.s, self.uid = s, uid
        self.cl = {"threads"}

    def iters(self):
        return self.s.choice([2000, 6000, 15000])

    def unit(self):
        s = self.s
        k = s.weighted([(5, self.total), (2, self.tickets), (2, self.lock), (2, self.tokens), (1, self.publish), (1, self.tear), (1, self.stack), (2, self.dekker), (2, self.narrow_neighbours)])
        top, fn, call = k()
        self.cl.add("shape: " + k.__name__)
        return Unit(top + "\n" + fn, call, self.cl, True)

    def total(self):
        """commuting updates: the final value is the sum of all of them"""
        s, u = self.s, self.uid
        group = s.choice(["add", "add", "xor", "mul", "bits", "fadd", "padd"])
        n = self.iters()
        self.cl.add("group: " + group)
        if group == "fadd":
            t = s.choice(["float", "double"])
            n = min(n, 6000)
        elif group == "padd":
            t = s.choice(["int", "char", "short"])
        else:
            t = s.choice([x for x in ITYPES if not x.boolean])
        if group == "padd":
            decl = "%s *_Atomic %%s" % t
            # a flat address space: enough room for every reachable position
            big = "static %s big%d[200001];\n" % (t, u)
            top, lv = where(s, u, decl, "big%d + 100000" % u)
            top = big + top
            ops = []
            for i in range(NT):
                d = s.choice([1, 1, 2, 3])
                ops.append(s.choice([["%s++;", "++%s;", "%s += 1;", "%s--;", "--%s;"], ["%%s += %d;" % d, "%%s -= %d;" % d], ["FETCH_A(&%%s, %d);" % d if False else "%s++;"]]))
            ops = [s.choice(o) % lv for o in ops]
            show = 'printf("%%ld\\n", (long)(%s - big%d));' % (lv, u)
            n = min(n, 6000)
        elif group == "fadd":
            top, lv = where(s, u, qual(s, t) + " %s", "0")
            ops = [s.choice(["%s += 1;", "%s++;", "++%s;", "%s -= 2;", "%s--;", "%s += 3.0;", "%s += id(2);", "%s -= 1.0f;", "%s += 0.5;",
                             "{ " + t + " o = %s, w; do w = o + 1; while (!atomic_compare_exchange_weak(&%s, &o, w)); }"]) for _ in range(NT)]
            ops = [o.replace("%s", lv) for o in ops]
            show = "PF(%s);" % lv
        else:
            top, lv = where(s, u, qual(s, t.name) + " %s", "5" if group != "bits" else "0")
            ops = []
            for i in range(NT):
                c = s.range(1, 9)
                if group == "add":
                    o = s.choice(["%%s += %d;" % c, "%%s -= %d;" % c, "%s++;", "++%s;", "%s--;", "--%s;", "atomic_fetch_add(&%%s, %d);" % c, "atomic_fetch_sub(&%%s, %d);" % c,
                                  "atomic_fetch_add_explicit(&%%s, %d, %s);" % (c, s.choice(MO)), "%%s += id(%d);" % c,
                                  "{ %s o = %%s; while (!atomic_compare_exchange_%s(&%%s, &o, o + %d)) ; }" % (t.name, s.choice(["weak", "strong"]), c),
                                  "{ %s o = 77; do if (0) ; while (!atomic_compare_exchange_weak_explicit(&%%s, &o, (%s)(o + %d), memory_order_seq_cst, memory_order_relaxed)); }" % (t.name, t.name, c),
                                  "x += %%s += %d;" % c, "x += %s++;"])
                elif group == "xor":
                    o = s.choice(["%%s ^= %d;" % (c * 9), "atomic_fetch_xor(&%%s, %d);" % (c * 11), "%%s ^= i & %d;" % (c * 7), "x += atomic_fetch_xor(&%%s, i & %d);" % c])
                elif group == "mul":
                    o = "%%s *= %d;" % s.choice([3, 5, 7, 11, -1])
                else:
                    # every thread owns two bits and toggles them through or / and; the last write decides
                    o = s.choice(["%%s |= 1 << (id_ * 2); if (i & 1) %%s &= ~(1 << (id_ * 2)); else atomic_fetch_or(&%%s, 2 << (id_ * 2));",
                                  "atomic_fetch_and(&%s, ~(3 << (id_ * 2))); atomic_fetch_or(&%s, (i & 3) << (id_ * 2)); bad += ((%s >> (id_ * 2)) & 3) != (i & 3);",
                                  "%s &= ~(3 << (id_ * 2)); bad += ((%s >> (id_ * 2)) & 3) != 0; %s |= 2 << (id_ * 2); bad += ((%s >> (id_ * 2)) & 3) != 2;"]).replace("%%", "%")
                ops.append(o.replace("%s", lv))
            show = "P((ull)%s);" % lv
            if group == "mul" and t.signed and t.bits >= 32:
                n = min(n, 15000)
        self.cl.update("op: " + ("cas loop" if "compare" in o else "fetch" if "fetch" in o else "inc/dec" if "++" in o or "--" in o else "compound") for o in ops)
        fn = "static atomic_long bad%d;\nstatic void *t%d(void *a) { int id_ = *(int *)a; long x = 0, bad = 0; meet(NT);\n" % (u, u)
        fn += "  for (int i = 0; i < %d; i++) switch (id_) {\n" % n
        for i, o in enumerate(ops):
            fn += "    case %d: %s break;\n" % (i, o)
        fn += "  }\n  bad%d += bad; cnt |= x & 0; return 0; }\n" % u
        call = "{ int a[NT] = {0, 1, 2, 3}; go(NT, t%d, a, sizeof *a); %s P(bad%d); }" % (u, show, u)
        return top, fn, call

    def tickets(self):
        s, u = self.s, self.uid
        n = s.choice([2000, 5000])
        t = s.choice([x for x in ITYPES if x.bits >= 32])
        top, lv = where(s, u, qual(s, t.name) + " %s", "0")
        if s.chance(30):
            st = s.choice([1, 3])
            top, lv = where(s, u, "int *_Atomic %s", "base%d" % u)
            top = "static int base%d[%d];\n" % (u, NT * n * 3 + 8) + top
            ops = [s.choice(["%s++ - base", "++%s - base - 1", "(%s += 1) - base - 1"]).replace("base", "base%d" % u) for _ in range(NT)]
        else:
            ops = [s.choice(["%s++", "++%s - 1", "(%s += 1) - 1", "atomic_fetch_add(&%s, 1)", "atomic_fetch_add_explicit(&%s, 1, memory_order_relaxed)",
                             "({ " + t.name + " o = %s; while (!atomic_compare_exchange_weak(&%s, &o, o + 1)) ; o; })"]) for _ in range(NT)]
        ops = [o.replace("%s", lv) for o in ops]
        fn = "static u8 seen%d[NT * %d];\nstatic void *t%d(void *a) { int id_ = *(int *)a; meet(NT);\n  for (int i = 0; i < %d; i++) { long k; switch (id_) {\n" % (u, n, u, n)
        for i, o in enumerate(ops):
            fn += "    %s k = %s; break;\n" % ("case %d:" % i if i < NT - 1 else "default:", o)
        fn += "    } if ((unsigned long)k < NT * %d) seen%d[k]++; } return 0; }\n" % (n, u)
        call = "{ int a[NT] = {0, 1, 2, 3}, b = 0; go(NT, t%d, a, sizeof *a); for (int i = 0; i < NT * %d; i++) b += seen%d[i] != 1; P(b); }" % (u, n, u)
        return top, fn, call

    def lock(self):
        s, u = self.s, self.uid
        n = s.choice([1000, 3000])
        k = s.below(5)
        self.cl.add("lock: " + ["flag", "exchange", "cas", "ticket", "pointer"][k])
        if k == 0:
            top = "static atomic_flag l%d = ATOMIC_FLAG_INIT;" % u
            acq = s.choice(["while (atomic_flag_test_and_set(&l)) relax();", "while (atomic_flag_test_and_set_explicit(&l, memory_order_acquire)) relax();"])
            rel = s.choice(["atomic_flag_clear(&l);", "atomic_flag_clear_explicit(&l, memory_order_release);"])
        elif k == 1:
            t = s.choice(["_Bool", "int", "char", "unsigned short", "long"])
            top = "static %s l%d;" % (qual(s, t), u)
            acq = "while (atomic_exchange(&l, 1)) relax();"
            rel = s.choice(["l = 0;", "atomic_store(&l, 0);", "atomic_store_explicit(&l, 0, memory_order_release);"])
        elif k == 2:
            t = s.choice(["_Bool", "int", "char", "unsigned short", "long", "double", "float"])
            top = "static %s l%d;" % (qual(s, t), u)
            acq = "for (;;) { %s e = 0; if (atomic_compare_exchange_%s(&l, &e, 1)) break; relax(); }" % (t, s.choice(["weak", "strong"]))
            rel = s.choice(["l = 0;", "atomic_store(&l, 0);", "{ %s e = 1; if (!atomic_compare_exchange_strong(&l, &e, 0)) x = 99; }" % t])
        elif k == 3:
            t = s.choice(["unsigned", "unsigned short", "unsigned char", "long"])
            top = "static struct { %s next, now; } l%d;" % (qual(s, t), u)
            acq = "{ %s me = l.next++; while (l.now != me) relax(); }" % t
            rel = s.choice(["l.now++;", "l.now += 1;", "atomic_fetch_add(&l.now, 1);"])
        else:
            top = "static int own%d[NT]; static int *_Atomic l%d;" % (u, u)
            acq = "for (;;) { int *e = 0; if (atomic_compare_exchange_strong(&l, &e, &own%d[id_])) break; relax(); }" % u
            rel = "if (l != &own%d[id_]) x = 99; l = 0;" % u
        acq, rel = acq.replace("l.", "l%d." % u).replace("&l,", "&l%d," % u).replace("&l)", "&l%d)" % u), rel.replace("l.", "l%d." % u).replace("&l,", "&l%d," % u).replace("&l)", "&l%d)" % u).replace("l =", "l%d =" % u).replace("(l !", "(l%d !" % u)
        fn = ("static long c%d[3]; static double d%d; static int x;\n" % (u, u)).replace("static int x;", "static int x%d;" % u)
        fn += "static void *t%d(void *a) { int id_ = *(int *)a, x = 0; meet(NT);\n  for (int i = 0; i < %d; i++) { %s\n    c%d[0]++; d%d += 1; c%d[1] = c%d[0]; c%d[2] += c%d[1] == c%d[0];\n    %s }\n  x%d |= x; return 0; }\n" % (
            u, n, acq, u, u, u, u, u, u, u, rel, u)
        call = "{ int a[NT] = {0, 1, 2, 3}; go(NT, t%d, a, sizeof *a); P(c%d[0]); P(c%d[2]); PF(d%d); P(x%d); }" % (u, u, u, u, u)
        return top, fn, call

    def tokens(self):
        """exchanges move tokens between slots and hands: none is lost or doubled"""
        s, u = self.s, self.uid
        n = s.choice([2000, 8000])
        t = s.choice(["int", "long", "unsigned short", "unsigned char", "double", "float", "void *", "short", "signed char"])
        S = s.choice([1, 2, 3, 5])
        decl = "void *_Atomic %s" if t == "void *" else qual(s, t) + " %s"
        top = "static %s; static %s;" % (decl % ("slot%d[%d]" % (u, S)), (t + " hand%d[NT]" % u))
        mk = "(void *)(long)(%s)" if t == "void *" else "(%s)"
        swap = s.choice(["h = atomic_exchange(&slot%d[k], h);" % u,
                         "{ %s o = slot%d[k]; while (!atomic_compare_exchange_%s(&slot%d[k], &o, h)) ; h = o; }" % (t, u, s.choice(["weak", "strong"]), u)])
        fn = "static void *t%d(void *a) { int id_ = *(int *)a; u32 r = id_ * 77 + 5; %s h = %s; meet(NT);\n  for (int i = 0; i < %d; i++) { int k = rnd(&r) %% %d; %s }\n  hand%d[id_] = h; return 0; }\n" % (
            u, t, mk % "id_ + 1", n, S, swap, u)
        call = "{ int a[NT] = {0, 1, 2, 3}, seen[20] = {0}; for (int i = 0; i < %d; i++) slot%d[i] = %s; go(NT, t%d, a, sizeof *a);" % (S, u, mk % "i + 1 + NT", u)
        call += " for (int i = 0; i < NT; i++) seen[(long)hand%d[i] %% 20]++; for (int i = 0; i < %d; i++) seen[(long)slot%d[i] %% 20]++; for (int i = 0; i < 20; i++) P(seen[i]); }" % (u, S, u)
        return top, fn, call

    def publish(self):
        s, u = self.s, self.uid
        n = s.choice([1000, 4000])
        t = s.choice(["int", "long", "unsigned", "double"])
        top = "static %s f%d_; static %s k%d_; static long d%d_[4];" % (qual(s, t), u, qual(s, t), u, u)
        st = s.choice(["f%d_ = i;", "atomic_store(&f%d_, i);", "atomic_store_explicit(&f%d_, i, memory_order_release);", "f%d_++;", "f%d_ += 1;", "atomic_exchange(&f%d_, i);"]) % u
        ld = s.choice(["f%d_", "atomic_load(&f%d_)", "atomic_load_explicit(&f%d_, memory_order_acquire)"]) % u
        fn = "static long e%d;\nstatic void *t%d(void *a) { int id_ = *(int *)a; long e = 0; meet(2);\n" % (u, u)
        fn += "  if (id_ == 0) for (long i = 1; i <= %d; i++) { for (int j = 0; j < 4; j++) d%d_[j] = i * (j + 3); %s while (k%d_ != i) relax(); }\n" % (n, u, st, u)
        fn += "  else for (long i = 1; i <= %d; i++) { while (%s != i) relax(); for (int j = 0; j < 4; j++) e += d%d_[j] != i * (j + 3); k%d_ = i; }\n  e%d += e; return 0; }\n" % (n, ld, u, u, u)
        call = "{ int a[2] = {0, 1}; go(2, t%d, a, sizeof *a); P(e%d); P((ull)f%d_); }" % (u, u, u)
        return top, fn, call

    def tear(self):
        s, u = self.s, self.uid
        n = s.choice([5000, 15000])
        k = s.below(4)
        if k == 0:
            top = "typedef unsigned long T%d; static _Atomic(T%d) v%d;" % (u, u, u)
            mk, ok = "(i & 0xffffffff) * 0x100000001ul", "(x >> 32) == (x & 0xffffffff)"
        elif k == 1:
            top = "typedef struct { int a, b; } T%d; static _Atomic(T%d) v%d;" % (u, u, u)
            mk, ok = "(T%d){ i, i }" % u, "x.a == x.b"
        elif k == 2:
            top = "typedef struct { short a; unsigned char b, c; } T%d; static _Atomic(T%d) v%d;" % (u, u, u)
            mk, ok = "(T%d){ i & 255, i, i }" % u, "x.a == x.b && x.b == x.c"
        else:
            top = "typedef double T%d; static _Atomic(T%d) v%d;" % (u, u, u)
            mk, ok = "i * 1.0000001", "x == 0 || (x / 1.0000001 > -1 && x / 1.0000001 < 1e6)"
        st = s.choice(["v%d = w;", "atomic_store(&v%d, w);"]) % u
        ld = s.choice(["x = v%d;", "x = atomic_load(&v%d);"]) % u
        fn = "static atomic_long e%d;\nstatic void *t%d(void *a) { int id_ = *(int *)a; long e = 0; meet(NT);\n  for (unsigned long i = id_ * 1000; i < id_ * 1000 + %d; i++) { T%d w, x; if (id_ < 2) { w = %s; %s } else { %s e += !(%s); } }\n  e%d += e; return 0; }\n" % (
            u, u, n, u, mk, st, ld, ok, u)
        call = "{ int a[NT] = {0, 1, 2, 3}; go(NT, t%d, a, sizeof *a); P(e%d); }" % (u, u)
        return top, fn, call

    def stack(self):
        """a Treiber stack with tagged indices: every node is pushed and popped without loss"""
        s, u = self.s, self.uid
        n = s.choice([1000, 4000])
        N = s.choice([2, 4, 9])
        top = "static %s head%d; static u32 next%d[%d];" % (qual(s, "unsigned long"), u, u, N + 1)
        fn = "static void push%d(u32 k) { u64 h = head%d, w; do { next%d[k] = (u32)h; w = ((h >> 32) + 1) << 32 | k; } while (!atomic_compare_exchange_weak(&head%d, &h, w)); }\n" % (u, u, u, u)
        fn += "static u32 pop%d(void) { u64 h = head%d, w; u32 k; do { k = (u32)h; if (!k) return 0; w = ((h >> 32) + 1) << 32 | next%d[k]; } while (!atomic_compare_exchange_strong(&head%d, &h, w)); return k; }\n" % (u, u, u, u)
        fn += "static %s own%d[%d]; static atomic_long e%d;\n" % (qual(s, s.choice(["char", "int", "_Bool"])), u, N + 1, u)
        fn += "static void *t%d(void *a) { long e = 0; meet(NT);\n  for (int i = 0; i < %d; i++) { u32 k = pop%d(); if (!k) continue; e += atomic_exchange(&own%d[k], 1) != 0; own%d[k] = 0; push%d(k); }\n  e%d += e; return 0; }\n" % (
            u, n, u, u, u, u, u)
        call = "{ int a[NT] = {0, 1, 2, 3}, c = 0, m = 0; for (int i = 1; i <= %d; i++) push%d(i); go(NT, t%d, a, sizeof *a); P(e%d); for (u32 k; (k = pop%d()); c++) m += k; P(c); P(m); }" % (N, u, u, u, u)
        return top, fn, call

    def dekker(self):
        """mutual exclusion that holds only if stores and loads are sequentially consistent"""
        s, u = self.s, self.uid
        n = s.choice([5000, 15000])
        t = s.choice(["int", "_Bool", "char", "short", "long", "unsigned"])
        top = "static %s want%d[2]; static %s turn%d; static long c%d, x%d;" % (qual(s, t), u, qual(s, s.choice(["int", "char", "long"])), u, u, u)
        w1 = s.choice(["want%d[id_] = 1;", "atomic_store(&want%d[id_], 1);", "atomic_store_explicit(&want%d[id_], 1, memory_order_seq_cst);"]) % u
        w2 = s.choice(["turn%d = 1 - id_;", "atomic_store(&turn%d, 1 - id_);"]) % u
        if s.chance(50):
            # Peterson
            acq = "%s %s while (want%d[1 - id_] && turn%d == 1 - id_) relax();" % (w1, w2, u, u)
            rel = s.choice(["want%d[id_] = 0;", "atomic_store(&want%d[id_], 0);"]) % u
        else:
            acq = "%s while (want%d[1 - id_]) if (turn%d != id_) { want%d[id_] = 0; while (turn%d != id_) relax(); want%d[id_] = 1; }" % (w1, u, u, u, u, u)
            rel = "%s want%d[id_] = 0;" % (w2, u)
        fn = "static void *t%d(void *a) { int id_ = *(int *)a; meet(2);\n  for (int i = 0; i < %d; i++) { %s c%d++; x%d += c%d & 1; %s }\n  return 0; }\n" % (u, n, acq, u, u, u, rel)
        call = "{ int a[2] = {0, 1}; go(2, t%d, a, sizeof *a); P(c%d); P(x%d); }" % (u, u, u)
        return top, fn, call

    def narrow_neighbours(self):
        """threads work on neighbouring members: an access wider than the object loses the neighbour's updates"""
        s, u = self.s, self.uid
        n = self.iters()
        ts = [s.choice(["char", "unsigned char", "short", "unsigned short", "_Bool", "int", "signed char", "float"]) for _ in range(NT)]
        arr = s.chance(40)
        if arr:
            ts = [ts[0]] * NT
            top = "static %s v%d[NT];" % (qual(s, ts[0]), u)
            lvs = ["v%d[%d]" % (u, i) for i in range(NT)]
        else:
            top = "static struct { %s } v%d;" % (" ".join("%s m%d;" % (qual(s, t), i) for i, t in enumerate(ts)), u)
            lvs = ["v%d.m%d" % (u, i) for i in range(NT)]
        fn = "static void *t%d(void *a) { int id_ = *(int *)a; meet(NT);\n  for (int i = 0; i < %d; i++) switch (id_) {\n" % (u, n)
        for i, (t, lv) in enumerate(zip(ts, lvs)):
            if t == "_Bool":
                o = s.choice(["%s = i & 1;", "%s ^= 1;", "atomic_exchange(&%s, i & 1);"])
            elif t == "float":
                o = s.choice(["%s = i & 255;", "%s += 1;", "%s++;"])
            else:
                o = s.choice(["%s = i;", "%s++;", "%s += 3;", "atomic_fetch_add(&%s, 5);", "atomic_exchange(&%s, i);", "--%s;", "{ " + t + " o = %s; atomic_compare_exchange_strong(&%s, &o, o + 1); }",
                              "atomic_store(&%s, i);", "%s ^= i;"])
            fn += "    case %d: %s break;\n" % (i, o.replace("%s", lv))
        fn += "  }\n  return 0; }\n"
        call = "{ int a[NT] = {0, 1, 2, 3}; go(NT, t%d, a, sizeof *a); %s }" % (u, " ".join("PF(%s);" % lv for lv in lvs))
        return top, fn, call


NT = 4


class C23(UnitCheck):
    id = "C23"
    prelude = APRELUDE
    units_per_batch = 14
    link_flags = ["-pthread", "-latomic"]
    batches = {"quick": 700, "thorough": 3000}
    run_timeout = 20
    use_san = False
    technique = ("property-based testing: histories of atomic operations against gcc and clang; random multi-threaded programs against "
                 "invariants over the final state (sums, tickets, token conservation, mutual exclusion, no torn values)")
    rule = "a case is one history of operations on atomic objects, or one concurrent program; every case is non-trivial: it applies at least two operations and observes their values"
    level_note = ("Random exploration with a fixed seed; the interleavings are those the hardware and scheduler produce while four threads contend, "
                  "so a broken interleaving may be missed, never invented: every invariant holds in every interleaving of a correct translation.")

    def gen_unit(self, src, uid):
        if src.chance(22):
            return Threads(src, uid).unit()
        return Single(src, uid).unit()

    def confirm(self, ctx, stats, cands):
        UnitCheck.confirm(self, ctx, stats, cands[:2])

    def recheck(self, ctx, choices):
        # a lost update needs luck: try several times, one wrong result is enough
        for _ in range(6):
            f = UnitCheck.recheck(self, ctx, choices)
            if f is not None:
                return f
        return None


CHECK = C23()
