"""C10: variadic functions."""
from lib.abi import AbiCheck, HEAD
from lib.diff import Unit, PRELUDE
from lib import agg
from lib.agg import (TG, leaves, value, show, FLT, DBL, LDBL, I_INT, I_UINT, I_LONG, I_ULONG, I_LL, I_ULL, PTRC, PTRV, I_CHAR, I_UCHAR,
                     I_SHORT, I_USHORT, I_BOOL, I_SCHAR, FPTR)

INT_ARG = [I_INT, I_UINT, I_LONG, I_ULONG, I_LL, I_ULL, PTRC, PTRV]
NARROW = {I_CHAR: I_INT, I_UCHAR: I_INT, I_SHORT: I_INT, I_USHORT: I_INT, I_BOOL: I_INT, I_SCHAR: I_INT, FLT: DBL}


class U(Unit):
    callee = caller = ""


class Gen:
    def __init__(self, src, uid):
        self.s, self.uid = src, uid
        self.tg = TG(src, uid, packed=src.chance(15), aligned=src.chance(30), maxmem=src.choice([1, 2, 3, 4, 6]), zero_bits="zero", over=50 if src.chance(12) else 0)
        self.cl = set()
        self.recs = []
        self.picks = {}

    def lv(self, t, path):
        return leaves(t, path, lambda r, mems: mems[self.picks.setdefault(id(r), self.s.below(len(mems)))])

    def fill(self, t, path):
        return " ".join("%s = %s;" % (p, value(self.s, sc, b)) for p, sc, b in self.lv(t, path))

    def rec(self):
        s = self.s
        if self.recs and s.chance(50):
            return s.choice(self.recs)
        sub = s.choice([None, [FLT], [DBL], [FLT, I_INT], [I_CHAR, I_SHORT], [LDBL], [I_LONG, DBL], [I_UCHAR], [FLT, DBL]])
        r = self.tg.record(s.choice([0, 1, 1]), sub)
        self.recs.append(r)
        return r

    def vtype(self, fam):
        s = self.s
        k = s.below(12)
        if fam == "int" and k < 9:
            return s.choice(INT_ARG)
        if fam == "fp" and k < 9:
            return s.choice([DBL, DBL, FLT, LDBL])
        if fam == "rec" and k < 8:
            self.cl.add("struct-argument")
            return self.rec()
        if k < 4:
            return s.choice(INT_ARG)
        if k < 6:
            self.cl.add("narrow")
            return s.choice(list(NARROW))
        if k < 8:
            return DBL
        if k < 9:
            self.cl.add("long-double")
            return LDBL
        self.cl.add("struct-argument")
        return self.rec()

    def arg_t(self, t):
        return NARROW.get(t, t)

    def gen(self):
        s, uid = self.s, self.uid
        fam = s.choice([None, "int", "fp", "rec", None])
        nn = s.weighted([(6, 1), (3, 2 + s.below(3)), (2, 5 + s.below(5)), (1, 0)])
        nv = s.weighted([(4, 1 + s.below(4)), (5, 4 + s.below(6)), (3, 9 + s.below(10))])
        named = [self.vtype(fam) for _ in range(nn)]
        if named and named[-1] in NARROW:
            named[-1] = I_INT
        var = [self.vtype(fam) for _ in range(nv)]
        if any(len(self.lv(t, "")) > 30 for t in named + var):
            return None
        fn = "f%d" % uid
        plist = ", ".join([t.decl("p%d" % i) for i, t in enumerate(named)] + ["..."])
        sig = "int %s(%s)" % (fn, plist)
        callee, body = "", ["va_list ap;"]
        if s.chance(30):
            body.append("chk();")
        start = "va_start(ap, p%d);" % (nn - 1) if nn else "va_start(ap);"
        body.append(start)
        code_defs = []

        def read(apx, t, k, emit):
            at = self.arg_t(t)
            n = "v%d" % k
            form = s.below(6)
            lv = self.lv(at, n)
            tn = at.spell() if at.k != "p" else at.name
            if form == 0 and at.k == "r" and lv:
                p, sc, b = s.choice(lv)
                emit.append(show("va_arg(%s, %s)%s" % (apx, tn, p[len(n):]), sc))
                self.cl.add("member-of-va_arg")
            elif form == 1 and at.k != "r":
                emit.append(show("va_arg(%s, %s)" % (apx, tn), at))
            elif form == 2 and at.k == "r":
                emit.append("{ %s; memset(&%s, 0, sizeof %s); %s = va_arg(%s, %s); %s }" % (
                    at.decl(n), n, n, n, apx, tn, " ".join(show(p, sc) for p, sc, b in lv)))
            elif form == 3:
                h = "h%d_%d_%d" % (uid, k, len(hel))
                code_defs.append("void %s(%s);" % (h, at.decl(n)))
                hel.append("void %s(%s) { %s }" % (h, at.decl(n), " ".join(show(p, sc) for p, sc, b in lv)))
                emit.append("%s(va_arg(%s, %s));" % (h, apx, tn))
                self.cl.add("va_arg-as-argument")
            else:
                emit.append("{ %s = va_arg(%s, %s); %s %s}" % (at.decl(n), apx, tn, "chk(); " if s.chance(20) else "",
                                                             " ".join(show(p, sc) for p, sc, b in lv)))

        hel = []
        i = 0
        while i < nv:
            k = s.below(10)
            if k < 6:
                read("ap", var[i], i, body)
                i += 1
            elif k == 6:
                # look ahead on a copy, then go on with the original
                m = 1 + s.below(min(4, nv - i))
                em = []
                for j in range(i, i + m):
                    read("aq", var[j], 100 + j, em)
                body.append("{ va_list aq; va_copy(aq, ap); %s va_end(aq); }" % " ".join(em))
                self.cl.add("va_copy")
                for j in range(i, i + 1):
                    read("ap", var[j], j, body)
                i += 1
            elif k == 7:
                # a helper (either side) takes a va_list and consumes from it
                m = 1 + s.below(min(4, nv - i))
                em = []
                for j in range(i, i + m):
                    read("a", var[j], j, em)
                h = "w%d_%d" % (uid, i)
                code_defs.append("void %s(va_list a);" % h)
                hel.append("void %s(va_list a) { %s }" % (h, " ".join(em)))
                body.append("%s(ap);" % h)
                self.cl.add("va_list-passed-on")
                # position after the call is indeterminate: the callee reads everything left through a fresh start
                body.append("va_end(ap); %s" % start)
                for j in range(0, i + m):
                    at = self.arg_t(var[j])
                    body.append("(void)va_arg(ap, %s);" % (at.spell() if at.k != "p" else at.name))
                i += m
            elif k == 8:
                # through a pointer to the va_list: the position is shared
                m = 1 + s.below(min(3, nv - i))
                em = []
                for j in range(i, i + m):
                    read("*a", var[j], j, em)
                h = "y%d_%d" % (uid, i)
                code_defs.append("void %s(va_list *a);" % h)
                hel.append("void %s(va_list *a) { %s }" % (h, " ".join(em)))
                body.append("%s(&ap);" % h)
                self.cl.add("va_list-pointer")
                i += m
            else:
                # restart from the beginning
                body.append("va_end(ap); %s" % start)
                for j in range(0, i):
                    at = self.arg_t(var[j])
                    body.append("(void)va_arg(ap, %s);" % (at.spell() if at.k != "p" else at.name))
                self.cl.add("restart")
                read("ap", var[i], i, body)
                i += 1
        body.append("va_end(ap);")
        for k, t in enumerate(named):
            body += [show(p, sc) for p, sc, b in self.lv(t, "p%d" % k)]
        body.append("return %d;" % s.below(1000))
        # caller
        pre, args = [], []
        for k, t in enumerate(named + var):
            v = "a%d" % k
            if t.k != "r" and t.k != "p" and s.chance(25) and t not in NARROW:
                c = value(s, t)
                args.append("(%s)%s" % (t.name, c if not c.startswith("-") else "(%s)" % c))
                continue
            pre.append("%s; memset(&%s, 0, sizeof %s); %s" % (t.decl(v), v, v, self.fill(t, v)))
            q = s.below(10)
            if q < 7:
                args.append(v)
            elif q == 7:
                args.append("(chk(), %s)" % v)
            elif q == 8 and t.k == "r":
                h = "id%d_%d" % (uid, k)
                code_defs.append("%s;" % t.decl("%s(%s)" % (h, t.decl("x"))))
                hel.append("%s { return x; }" % t.decl("%s(%s)" % (h, t.decl("x"))))
                args.append("%s(%s)" % (h, v))
            else:
                args.append("*&%s" % v)
        fp = fn
        if s.chance(25):
            pre.append("int (*fp)(%s) = %s;" % (plist, fn))
            fp = "fp"
        cb = pre + ["P(%s(%s));" % (fp, ", ".join(args))]
        if s.chance(40):
            cb.append(self.libc_call())
        cb.append("chk();")
        code = "\n".join(self.tg.defs + code_defs) + "\n" + sig + ";"
        u = U(code, "docall(t%d);" % uid, sorted(self.cl | {"variadic:%s" % ("1-4" if nv < 5 else "5-9" if nv < 10 else "10+")} | self.tg.classes))
        side = s.below(2)
        u.callee = "%s { %s }" % (sig, "\n".join(body))
        u.caller = "static void t%d(void) { %s }" % (uid, "\n".join(cb))
        if side:
            u.caller = "\n".join(hel) + "\n" + u.caller
        else:
            u.callee = "\n".join(hel) + "\n" + u.callee
        return u

    def libc_call(self):
        s = self.s
        self.cl.add("libc-variadic")
        f, a = [], []
        for _ in range(1 + s.below(12)):
            k = s.below(7)
            if k == 0:
                f.append("%d"); a.append(value(s, I_INT))
            elif k == 1:
                f.append("%ld"); a.append("(long)%s" % value(s, I_LONG))
            elif k == 2:
                f.append("%g"); a.append("%d.25" % s.below(1000))
            elif k == 3:
                f.append("%Lg"); a.append("%d.5L" % s.below(1000))
            elif k == 4:
                f.append("%s"); a.append('"s%d"' % s.below(100))
            elif k == 5:
                f.append("%c"); a.append("(char)%d" % (65 + s.below(26)))
            else:
                f.append("%g"); a.append("(float)%d.5" % s.below(100))
        return 'printf("%s\\n", %s);' % (" ".join(f), ", ".join(a))


class C10(AbiCheck):
    id = "C10"
    rule = "a unit (a generated variadic callee with its helpers and one call) is non-trivial if it passes at least one unnamed argument; distinct by text"
    prelude = "#include <stdarg.h>\n" + AbiCheck.prelude
    slimcc_flags = ["-std=c23", "-w"]
    gcc_flags = ["-w", "-O0", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin", "-std=gnu2x"]
    clang_flags = gcc_flags
    batches = {"quick": 600, "thorough": 12000}
    technique = ("property-based testing: generated variadic functions, helpers and calls; differential linking of slimcc and gcc objects in both "
                 "directions and calls into libc")
    level_note = ("Random exploration with a fixed seed. Trusts gcc and clang, which must be able to call each other, for what the psABI requires.")

    def gen_unit(self, src, uid):
        return Gen(src, uid).gen()


CHECK = C10()
