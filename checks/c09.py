"""C09: System V calls in both directions."""
from lib.abi import AbiCheck
from lib.diff import Unit
from lib import agg
from lib.agg import TG, Rec, Arr, Sc, INTS, FLT, DBL, LDBL, leaves, value, show, PTRC, I_CHAR, I_SHORT, I_INT, I_LONG, I_UCHAR, I_BOOL


class U(Unit):
    callee = caller = ""


class Gen:
    def __init__(self, src, uid):
        self.s, self.uid = src, uid
        self.tg = TG(src, uid, packed=src.chance(25), aligned=src.chance(25), maxmem=src.choice([2, 3, 4, 6, 9]),
                     zero_bits="zero", over=50 if src.chance(12) else 0)    # gcc and clang disagree about unnamed bit-fields of non-zero width
        self.classes = set()

    def vtype(self, fam):
        """A parameter or return type."""
        s = self.s
        k = s.below(10)
        if k < 4:
            return s.choice(fam) if fam and s.chance(70) else self.tg.scalar()
        if k < 9:
            if self.recs and s.chance(50):
                return s.choice(self.recs)
            sub = s.choice([None, None, [FLT], [DBL], [FLT, I_INT], [I_CHAR, I_SHORT], [LDBL], [I_LONG, DBL], [I_UCHAR], [FLT, DBL], [PTRC, FLT]])
            r = self.tg.record(s.choice([0, 1, 1, 2]), sub)
            self.recs.append(r)
            return r
        return s.choice([LDBL, DBL, FLT, I_BOOL, I_CHAR])

    def size_guard(self, t):
        return True

    def lv(self, t, path, picks):
        return leaves(t, path, lambda r, mems: mems[picks.setdefault(id(r), self.s.below(len(mems)))])

    def fill(self, t, path, picks):
        s = self.s
        return " ".join("%s = %s;" % (p, value(s, sc, b)) for p, sc, b in self.lv(t, path, picks))

    def gen(self):
        s, uid = self.s, self.uid
        self.recs = []
        fam = s.choice([None, [I_INT, I_LONG], [DBL, FLT], [I_CHAR, I_SHORT, I_BOOL, I_UCHAR], [LDBL, DBL], [DBL, I_LONG]])
        np = s.weighted([(5, s.below(4)), (5, 3 + s.below(6)), (3, 8 + s.below(10))])
        params = [self.vtype(fam) for _ in range(np)]
        ret = None if s.chance(12) else self.vtype(fam)
        fn, picks = "f%d" % uid, {}
        knr = np and s.chance(8) and not (ret and ret.decl("@").find("(") >= 0)
        names = ["p%d" % i for i in range(np)]
        # the callee prints everything it got, scribbles over its parameters and returns a fresh value
        body = []
        if s.chance(50):
            body.append("chk();")
        for t, n in zip(params, names):
            for p, sc, b in self.lv(t, n, picks):
                body.append(show(p, sc))
            if isinstance(t, Rec) and "aligned(" in t.attr:
                body.append("P((u64)&%s & (_Alignof(%s) - 1));" % (n, n))
        for t, n in zip(params, names):
            if s.chance(60):
                body.append(self.fill(t, n, picks))
        if s.chance(40):
            body.append("chk();")
        proto_ret = ret.decl("@") if ret else "void @"
        plist = ", ".join(t.decl(n) for t, n in zip(params, names)) or "void"
        sig = proto_ret.replace("@", "%s(%s)" % (fn, plist))
        rk = s.below(3)
        gname = "g%d" % uid
        callee = ""
        if ret:
            if rk == 0:
                body.append("%s; memset(&r, 0, sizeof r); %s return r;" % (ret.decl("r"), self.fill(ret, "r", picks)))
            elif rk == 1:
                callee += "static %s;\n" % ret.decl(gname)
                body.append("%s chk(); return %s;" % (self.fill(ret, gname, picks), gname))
            elif ret in params:
                body.append("return %s;" % names[params.index(ret)])
            else:
                callee += "static %s;\n" % ret.decl(gname)
                body.append("%s return *(chk(), &%s);" % (self.fill(ret, gname, picks), gname))
        if knr:
            self.classes.add("old-style")
            sigd = proto_ret.replace("@", "%s(%s)" % (fn, ", ".join(names))) + " " + " ".join(t.decl(n) + ";" for t, n in zip(params, names))
            proto = proto_ret.replace("@", "%s()" % fn) + ";"
        else:
            sigd, proto = sig, sig + ";"
        code = "\n".join(self.tg.defs) + "\n" + proto
        # identity helpers used by the caller, some compiled on the other side
        helpers = []
        caller = []
        args, pre, post = [], [], []
        for i, t in enumerate(params):
            v = "a%d" % i
            pre.append("%s; memset(&%s, 0, sizeof %s); %s" % (t.decl(v), v, v, self.fill(t, v, picks)))
            post += [show(p, sc) for p, sc, b in self.lv(t, v, picks)]
            k = s.below(12)
            if k < 6:
                args.append(v)
            elif k == 6:
                args.append("(chk(), %s)" % v)
                self.classes.add("call-between-arguments")
            elif k == 7:
                h = "id%d_%d" % (uid, i)
                code += "\n%s;" % t.decl("%s(%s)" % (h, t.decl("x")))
                (helpers if s.chance(50) else caller).append("%s { %sreturn x; }" % (t.decl("%s(%s)" % (h, t.decl("x"))), "chk(); " if s.chance(50) else ""))
                args.append("%s(%s)" % (h, v))
                self.classes.add("nested-call")
            elif k == 8:
                args.append("*(&%s)" % v)
            elif k == 9:
                args.append("({ chk(); %s; })" % v)
                self.classes.add("statement-expression-argument")
            elif k == 10:
                args.append("(one ? %s : %s)" % (v, v))
            else:
                args.append("(&%s)[zero]" % v)
        if knr:
            # default promotions apply: narrow types must still arrive unchanged
            pass
        cbody = ["volatile int one = 1, zero = 0;"] + pre
        fp = fn
        if s.chance(30):
            cbody.append("%s = %s;" % (proto_ret.replace("@", "(*fp)(%s)" % ("" if knr else plist)), fn))
            fp = s.choice(["fp", "(*fp)", "(one ? fp : 0)"])
            self.classes.add("function-pointer")
        call = "%s(%s)" % (fp, ", ".join(args))
        if ret is None:
            cbody.append(call + ";")
        else:
            lv = self.lv(ret, "", picks)
            k = s.below(6)
            if k == 0 and ret.k == "r" and lv:
                p, sc, b = s.choice(lv)
                cbody.append(show("(%s)%s" % (call, p), sc))
                self.classes.add("member-of-call")
            elif k == 1:
                cbody.append("%s; memset(&r, 0, sizeof r); r[one] = %s;" % (ret.decl("r[3]"), call))
                cbody += [show("r[1]" + p, sc) for p, sc, b in lv]
                cbody += [show("r[0]" + p, sc) for p, sc, b in lv[:2]] + [show("r[2]" + p, sc) for p, sc, b in lv[:2]]
            elif k == 2 and not ret.k == "r":
                cbody.append(show("(chk(), %s)" % call, ret))
            elif k == 3:
                cbody.append("%s = %s; %s q = &r;" % (ret.decl("r"), call, ret.decl("*")[:-1].rstrip() + " *" if False else ret.decl("*q").rsplit("q", 1)[0]) if False else
                             "%s = %s; %s;" % (ret.decl("r"), call, ret.decl("*q") + " = &r"))
                cbody += [show("(*q)" + p, sc) for p, sc, b in lv]
            elif k == 4:
                cbody.append(call + "; chk();")
            else:
                cbody.append("%s; %s; r = %s;" % (ret.decl("r"), ret.decl("w0"), call))
                cbody += [show("r" + p, sc) for p, sc, b in lv]
        cbody += post
        cbody.append("chk();")
        caller.append("static void t%d(void) { %s }" % (uid, "\n".join(cbody)))
        u = U(code, "docall(t%d);" % uid, sorted(self.classes | self.tg.classes | {"params:%s" % ("0-5" if np < 6 else "6-8" if np < 9 else "9+")} |
                                                 ({"returns-record"} if ret and ret.k == "r" else set())))
        if any(len(self.lv(t, "", picks)) > 60 for t in params) or (ret and len(self.lv(ret, "", picks)) > 60):
            return None
        u.callee = callee + "\n".join(helpers) + "\n%s { %s }" % (sigd, "\n".join(body))
        u.caller = "\n".join(caller)
        u.nontrivial = np > 0 or ret is not None
        return u


class C09(AbiCheck):
    id = "C09"
    rule = ("a unit (a generated signature, callee and call site) is non-trivial if it passes or returns at least one value; "
            "distinct by program text")
    batches = {"quick": 600, "thorough": 12000}
    technique = ("property-based testing: generated signatures, callers and callees; differential linking of slimcc and gcc objects in both "
                 "directions, with register/stack/x87 state monitors written in assembly")
    level_note = ("Random exploration with a fixed seed. Trusts gcc and clang, which must agree with each other, for what the psABI requires.")

    def gen_unit(self, src, uid):
        return Gen(src, uid).gen()


CHECK = C09()
