"""Random structured statements whose execution leaves a trace: control flow, cleanups, defers, VLAs.

Jumps are placed first and given targets at the end: a jump may go to a label only if every declaration active at
the label is active at the jump too, so no jump enters the scope of an initialised, cleanup, deferred or VLA object.
Every loop and jump burns fuel, so all programs end."""

PRELUDE = r'''
static int fuel; static unsigned step; static int nest;
static unsigned T(unsigned k) { printf("t%u\n", k); return k; }
static unsigned TV(unsigned k, unsigned v) { printf("t%u=%x\n", k, v); return v; }
static int F(void) { return --fuel >= 0; }
#ifdef __slimcc__
#define S 1
#define BRK(l) break l
#define CNT(l) continue l
#else
#define S 0
#define BRK(l) goto l##_b
#define CNT(l) goto l##_c
#endif
'''


class Loop:
    def __init__(self, label, kind, active):
        self.label, self.kind, self.active, self.emu = label, kind, active, False


class SG:
    def __init__(self, src, uid, cleanup=False, ext=True, budget=26, retkinds=True):
        self.s, self.uid = src, uid
        self.ext = ext               # constructs only slimcc knows, with an equivalent spelling for the references
        self.cleanup = cleanup
        self.budget = budget
        self.n = 0
        self.k = 0
        self.active = []             # initialised declarations in scope
        self.labels = []             # (name, active)
        self.gotos = []              # active lists
        self.loops = []
        self.vars = ["v0", "v1", "v2"]
        self.classes = set()
        self.globs = []
        self.in_defer = 0
        self.ret = src.choice(["unsigned", "unsigned", "long", "void", "double", "struct", "char", "_Bool", "long double", "small"]) if retkinds else "unsigned"
        self.nodecl = 0

    def tk(self):
        self.k += 1
        return self.k

    def name(self, p):
        self.n += 1
        return "%s%s_%d" % (p, self.uid, self.n)

    def var(self):
        return self.s.choice(self.vars)

    # ---- expressions: unsigned arithmetic only, so nothing is undefined
    def atom(self):
        s = self.s
        return s.weighted([(4, self.var()), (2, "%uu" % s.below(10)), (1, "a")])

    def pure(self, d=1):
        """Reads variables, changes nothing."""
        s = self.s
        k = s.below(8)
        if d <= 0 or k < 3:
            return self.atom()
        if k < 6:
            return "(%s %s %s)" % (self.pure(d - 1), s.choice(["+", "-", "*", "^", "|", "&"]), self.pure(d - 1))
        if k == 6:
            return "(%s ? %s : %s)" % (self.pcond(d - 1), self.pure(d - 1), self.pure(d - 1))
        return "!(%s)" % self.pcond(d - 1)

    def pcond(self, d=1):
        s = self.s
        if d <= 0 or s.below(3) == 0:
            return s.weighted([(4, "%s & %d" % (self.var(), s.choice([1, 2, 4]))), (2, "%s < %u" % (self.var(), s.below(12))),
                               (1, self.var()), (1, s.choice(["0", "1", "!0", "0.0", "0.5", "1l << 40", "(void *)0", "\"x\"", "-1"]))])
        k = s.below(5)
        if k == 0:
            return "!(%s)" % self.pcond(d - 1)
        if k == 1:
            return "(%s) %s (%s)" % (self.pcond(d - 1), s.choice(["&&", "||"]), self.pcond(d - 1))
        return "%s %s %s" % (self.pure(d - 1), s.choice(["<", ">", "==", "!=", "<=", ">="]), self.pure(d - 1))

    def init(self):
        """Initialiser of an object with a cleanup: nothing in it may leave the scope half-way."""
        return self.pure(2) if self.s.chance(60) else "TV(%d, %s)" % (self.tk(), self.pure(1))

    # an expression with side effects keeps them sequenced: calls, &&, ||, ?:, comma, statement expressions, and
    # operators whose other operand is a constant
    def ex(self, d=2):
        s = self.s
        k = s.below(14)
        if d <= 0 or k < 5:
            return self.pure(d)
        if k < 7:
            x, y = self.ex(d - 1), s.choice(["3u", "17u", "0x80u", "1.5", "2.0f", "(char)7", "5ul"])
            op = s.choice(["+", "-", "*", "<", ">="]) if "." in y else s.choice(["+", "-", "*", "^", "|", "&", "<", "=="])
            if "." in y and op in "+-*":
                return "(unsigned)(long)(%s %s %s)" % ((x, op, y) if s.chance(50) else (y, op, x))
            return "(%s %s %s)" % ((x, op, y) if s.chance(50) else (y, op, x))
        if k == 7:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.ex(d - 1), self.ex(d - 1))
        if k == 8:
            return "TV(%d, %s)" % (self.tk(), self.ex(d - 1))
        if k == 9 and not self.in_defer:
            return self.stexpr(d)
        if k == 10:
            return "(%s, %s)" % (self.effect(0), self.ex(d - 1))
        if k == 11:
            return "T(%d)" % self.tk()
        return "!(%s)" % self.cond(d - 1)

    def effect(self, d=1):
        s = self.s
        v = self.var()
        return s.choice(["%s = %s" % (v, self.ex(d)), "%s += %s" % (v, self.pure(d)), "%s++" % v, "++%s" % v, "--%s" % v, "T(%d)" % self.tk(),
                         "%s ^= %s" % (v, self.pure(d))])

    def cond(self, d=2):
        s = self.s
        k = s.below(14)
        if d <= 0 or k < 3:
            return self.pcond(d)
        if k < 4:
            return "step++ & 1"
        if k < 5:
            return "TV(%d, %s)" % (self.tk(), self.ex(1))
        if k < 9:
            return "(%s) %s (%s)" % (self.cond(d - 1), s.choice(["&&", "||"]), self.cond(d - 1))
        if k < 10:
            return "!(%s)" % self.cond(d - 1)
        if k < 11:
            return "(%s) ? (%s) != 0 : (%s) != 0" % (self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        if k < 12:
            return "(%s, %s)" % (self.effect(0), self.cond(d - 1))
        if k < 13:
            return "(%s)%s" % (s.choice(["double", "float", "long double", "unsigned char", "_Bool", "short", "long"]), self.atom())
        return "%s %s %uu" % (self.ex(d - 1), s.choice(["<", ">", "==", "!=", "<=", ">="]), s.below(20))

    def stexpr(self, d):
        """Statement expression; may be left by jumps."""
        self.classes.add("statement-expression")
        mark = object()
        save, sv = list(self.active), list(self.vars)
        self.active = save + [mark]
        self.budget -= 2
        body = self.stmts(self.s.range(0, 2))
        r = self.ex(d - 1)
        self.active, self.vars = save, sv
        return "({ %s %s; })" % (body, r)

    # ---- statements
    def stmts(self, n):
        return " ".join(self.stmt() for _ in range(n))

    def block(self, n=None):
        s = self.s
        save, sv = list(self.active), list(self.vars)
        out = "{ %s }" % self.stmts(s.range(0, 3) if n is None else n)
        self.active, self.vars = save, sv
        return out

    def sub(self):
        """Body of a controlled statement: a block or a bare statement."""
        if self.s.chance(25):
            save, sv = list(self.active), list(self.vars)
            self.nodecl += 1
            t = self.stmt()
            self.nodecl -= 1
            self.active, self.vars = save, sv
            return t if t.strip() else ";"
        return self.block()

    def stmt(self):
        s = self.s
        self.budget -= 1
        if self.budget <= 0:
            return self.simple()
        opts = [(8, "simple"), (6, "if"), (5, "loop"), (4, "switch"), (3, "label"), (3, "goto"), (5, "jump"), (2, "block"),
                (0 if self.nodecl else 3, "decl"), (1, "cgoto"), (1, "ret"), (2, "sexp")]
        if self.cleanup and not self.nodecl:
            opts.append((14, "clean"))
        return getattr(self, "s_" + s.weighted(opts))()

    def simple(self):
        s = self.s
        k = s.below(6)
        if k == 0:
            return "T(%d);" % self.tk()
        if k == 1:
            return "(%s) && (%s);" % (self.cond(1), self.effect(0))
        if k == 2:
            return "(%s) ? (void)(%s) : (void)(%s);" % (self.cond(1), self.effect(0), self.effect(0))
        if k == 3:
            return "TV(%d, %s);" % (self.tk(), self.ex(2))
        return self.effect(2) + ";"

    s_simple = simple

    def s_sexp(self):
        s = self.s
        if self.in_defer:
            return self.simple()
        k = self.s.below(5)
        if k == 0:
            return "T(%s);" % self.stexpr(1)
        if k == 1:
            return "%s = %s + %s;" % (self.var(), s.choice(["7", "1.5", "2l", "T(%d)" % self.tk()][:3]), self.stexpr(1))
        if k == 2:
            return "%s = 3.5 * 3 < %s;" % (self.var(), self.stexpr(1))
        if k == 3:
            return "{ long double ld = %s; %s = (ld + 1) < (ld * %s); }" % (self.pure(0), self.var(), self.stexpr(1))
        return "TV(%d, (TV(%d, %s), %s));" % (self.tk(), self.tk(), self.ex(1), self.stexpr(1))

    def s_block(self):
        return self.block()

    def s_decl(self):
        n = self.name("d")
        t = "%s %s = %s;" % (self.s.choice(["unsigned", "unsigned", "unsigned char", "unsigned long", "unsigned short"]), n, self.ex(1))
        self.active.append(n)
        self.vars = self.vars + [n]
        return t

    def s_if(self):
        s = self.s
        pre = post = ""
        save, sv = list(self.active), list(self.vars)
        if self.ext and s.chance(15):
            self.classes.add("if-declaration")
            n = self.name("i")
            dcl = self.cvar(n)
            self.active.append(n)
            self.vars = self.vars + [n]
            c = self.cond(1)
            pre = "\n#if S\nif (%s; %s)\n#else\n{ %s; if (%s)\n#endif\n" % (dcl, c, dcl, c)
            post = "\n#if !S\n}\n#endif\n"
        else:
            pre = "if (%s) " % self.cond()
        t = self.sub()
        if s.chance(50):
            if t.rstrip().endswith("}"):
                t += " else " + self.sub()
            else:
                t = "{ %s } else %s" % (t, self.sub())
        elif not t.startswith("{"):
            t = "{ %s }" % t      # keep dangling else out of the picture
        self.active, self.vars = save, sv
        return pre + t + post

    def cvar(self, n):
        """Declaration (without ;) usable in a condition."""
        if self.cleanup and self.s.chance(60):
            self.classes.add("cleanup-in-condition")
            return "unsigned %s __attribute__((cleanup(C))) = %s" % (n, self.init())
        return "unsigned %s = %s" % (n, self.ex(1))

    def s_loop(self):
        s = self.s
        lab = self.name("L") if s.chance(40) else None
        lp = Loop(lab if self.ext else None, "loop", None)
        save, sv, nd = list(self.active), list(self.vars), self.nodecl
        self.nodecl = 0
        k = s.below(8)
        pre = post = ""
        head = "%s: " % lab if lab else ""
        if lab:
            self.labels.append((lab, list(self.active)))
            lp.label = lab if self.ext and s.chance(60) else None
        emu_c = "\n#if !S\n%s_c:;\n#endif\n" % lab if lp.label else ""
        emu_b = "\n#if !S\n;%s_b:;\n#endif\n" % lab if lp.label else ""
        c = self.cond(1)

        def body():
            ec = "" if lp.emu else emu_c
            lp.active = list(self.active)
            self.loops.append(lp)
            b = self.sub()
            self.loops.pop()
            return "{ %s %s}" % (b, ec)
        if k < 2:
            t = "while (F() && (%s)) %s" % (c, body())
        elif k < 4:
            b = body()
            t = "do %s while (%s);" % (b, s.choice(["F() && (%s)" % c, "0", "F() && (%s)" % self.cond(1)]))
        elif k < 7 or not self.ext:
            i = ""
            if s.chance(60):
                n = self.name("f")
                i = "unsigned %s = %s" % (n, self.ex(1))
                if self.cleanup and s.chance(40):
                    i = "unsigned %s __attribute__((cleanup(C))) = %s" % (n, self.init())
                self.active.append(n)
                self.vars = self.vars + [n]
            elif s.chance(50):
                i = self.effect(1)
            cc = s.choice(["F() && (%s)" % self.cond(1), "F()", ""])
            inc = self.effect(1) if s.chance(60) else ""
            b = body()
            if not cc:
                b = "{ if (!F()) break; %s" % b[1:]
            t = "for (%s; %s; %s) %s" % (i, cc, inc, b)
        else:
            # condition declarations (only slimcc has them)
            self.classes.add("loop-declaration")
            n = self.name("c")
            d = self.cvar(n)
            if not lab:
                lab = self.name("L")
                head = ""
            lp.emu = lab
            lp.label = None
            save2, sv2 = list(self.active), list(self.vars)
            self.active.append(n)
            self.vars = self.vars + [n]
            inc = self.effect(1) if s.chance(60) else ""
            fl = lambda x: x.replace(" = ", " = F() ? ", 1) + " : 0"
            if "cleanup" in d:
                a, b0 = d.split(" = ", 1)
                d = "%s = F() ? %s : 0" % (a, b0)
            else:
                d = fl(d)
            b = body()
            if s.chance(50):
                hs = "while (%s)" % d
                inc = ""
            else:
                hs = "for (; %s; %s)" % (d, inc)
            t = "\n#if S\n%s%s %s\n#else\n%sfor (;;) { %s; if (!%s) break; %s %s_c:; %s; }\n#endif\n" % (head, hs, b, head, d, n, b, lab, inc)
            # the body text appears twice, once per reader; labels inside are per branch of the #if
            head = ""
            emu_b = ""
        self.active, self.vars, self.nodecl = save, sv, nd
        return "%s%s%s" % (head, t, emu_b)

    def s_switch(self):
        s = self.s
        ty, lo, hi = s.choice([("int", -2**31, 2**31 - 1), ("unsigned", 0, 2**32 - 1), ("long", -2**63, 2**63 - 1), ("unsigned long", 0, 2**64 - 1),
                               ("signed char", -128, 127), ("unsigned char", 0, 255), ("short", -2**15, 2**15 - 1), ("_Bool", 0, 1)])
        wide = (lo, hi) if hi > 65535 else (-2**31, 2**31 - 1)     # promoted type
        cases, used = [], []

        def pick():
            k = s.below(8)
            if k < 4:
                return s.below(12)
            if k < 6:
                return -1 - s.below(6)
            if k < 7:
                return s.choice([lo, hi, lo + 1, hi - 1, 2**31 - 1, 2**31, 2**32, 2**32 - 1, -2**31, 2**40, -2**31 - 1, 127, 128, 255, 256, 65535])
            return s.bits(63)
        for _ in range(s.weighted([(6, s.range(0, 4)), (2, s.range(4, 12))])):
            a = max(wide[0], min(wide[1], pick()))
            b = a
            if s.chance(25):
                b = min(wide[1], a + s.choice([1, 2, 5, 100, 1 << 33]))
                self.classes.add("case-range")
            if any(not (b < x or a > y) for x, y in used):
                continue
            used.append((a, b))
            cases.append((a, b))

        def lit(v):
            if v == -2**63:
                return "(-0x7fffffffffffffff-1)"
            return "%d%s" % (v, "u" if v > 2**63 - 1 else "")
        vals = [lo, hi, 0, 1]
        for a, b in cases:
            vals += [a, b, a - 1, b + 1, (a + b) // 2]
        vals = [v for v in vals if lo <= v <= hi]
        vals = s.sample(vals, min(len(vals), 6)) or [0]
        sel = self.name("w")
        self.globs.append("static volatile %s %s[] = { %s };" % (ty, sel, ", ".join(lit(v) for v in vals)))
        save, sv, nd = list(self.active), list(self.vars), self.nodecl
        self.nodecl = 0
        lab = self.name("W") if self.ext and s.chance(20) else None
        if lab:
            self.labels.append((lab, list(self.active)))
        lp = Loop(lab, "switch", list(self.active))
        items = [("case %s:" % lit(a)) if a == b else "case %s ... %s:" % (lit(a), lit(b)) for a, b in s.shuffle(cases)]
        if s.chance(60):
            items.insert(s.below(len(items) + 1), "default:")
        self.loops.append(lp)
        out, depth = [], []
        if s.chance(10) and not self.cleanup:
            out.append("T(%d);" % self.tk())          # unreachable statement before the first label
        nl = len(self.active)
        for it in items:
            r = s.below(10)
            if r == 0 and len(self.active) == nl:
                # label inside a nested statement (Duff style)
                o = s.choice(["if (%s) {" % self.cond(1), "while (F() && (%s)) {" % self.cond(1), "{", "do {"])
                out.append(o)
                depth.append((o, list(self.active), list(self.vars)))
                if o.startswith(("while", "do")):
                    self.loops.append(Loop(None, "loop", list(self.active)))
            # no initialised object may be live at a case label
            while len(self.active) > nl:
                if depth:
                    self.close(out, depth)
                else:
                    break
            if len(self.active) > nl:
                out.append("}")
                self.active, self.vars = list(save), list(sv)
                out.append("{")
            out.append(it)
            if s.chance(70):
                out.append("{ %s }" % self.scoped())
            elif not self.cleanup:
                out.append(self.simple())
            else:
                out.append(";")
            if s.chance(55):
                out.append(s.weighted([(5, "break;"), (2, self.s_jump()), (1, self.s_goto())]))
            if depth and s.chance(40):
                self.close(out, depth)
        while depth:
            self.close(out, depth)
        if not out or out[-1].endswith(":"):
            out.append(";")
        self.loops.pop()
        self.active, self.vars, self.nodecl = save, sv, nd
        c = "%s[step++ %% %d]" % (sel, len(vals))
        if self.ext and s.chance(10):
            self.classes.add("switch-declaration")
            n = self.name("s")
            t = "\n#if S\nswitch (%s %s = %s; %s)\n#else\n{ %s %s = %s; switch (%s)\n#endif\n{ %s }\n#if !S\n}\n#endif\n" % (
                ty, n, c, n, ty, n, c, n, " ".join(out))
        else:
            t = "switch (%s) { %s }" % (c, " ".join(out))
        if lab:
            t = "%s: %s\n#if !S\n;%s_b:;\n#endif\n" % (lab, t, lab)
        return t

    def scoped(self):
        save, sv = list(self.active), list(self.vars)
        t = self.stmts(self.s.range(0, 2))
        self.active, self.vars = save, sv
        return t

    def close(self, out, depth):
        o, a, v = depth.pop()
        if out[-1].endswith(":"):
            out.append(";")
        if o.startswith(("while", "do")):
            self.loops.pop()
        if o == "do {":
            out.append("} while (F() && (%s));" % self.cond(1))
        else:
            out.append("}")
        self.active, self.vars = a, v

    def s_label(self):
        n = self.name("l")
        self.labels.append((n, list(self.active)))
        return "%s: %s" % (n, self.simple())

    def s_goto(self):
        if self.in_defer:
            return ";"
        self.gotos.append(list(self.active))
        return "{ if (F()) \0G%d\0 }" % (len(self.gotos) - 1)

    def s_cgoto(self):
        if self.in_defer or self.cleanup:
            return ";"
        self.classes.add("computed-goto")
        self.gotos.append(list(self.active))
        return "{ \0H%d\0 }" % (len(self.gotos) - 1)

    def s_jump(self):
        """break / continue, plain or labelled."""
        s = self.s
        if not self.loops:
            return self.s_goto()
        opts = ["break;"]
        li = len(self.loops) - 1
        while li >= 0 and self.loops[li].kind == "switch":
            li -= 1
        if li >= 0:
            lp = self.loops[li]
            if lp.emu:
                opts.append("\n#if S\ncontinue;\n#else\ngoto %s_c;\n#endif\n" % lp.emu)
            else:
                opts.append("continue;")
        for lp in self.loops:
            if lp.label:
                self.classes.add("labelled-jump")
                opts.append("BRK(%s);" % lp.label)
                if lp.kind == "loop":
                    opts.append("CNT(%s);" % lp.label)
        o = s.choice(opts)
        return o if s.chance(30) else "if (%s) { %s }" % (self.cond(1), o)

    def retval(self):
        r = self.ret
        if r == "void":
            return ""
        if r == "struct":
            return "mk%s(%s)" % (self.uid, self.ex(1))
        if r == "small":
            return "(struct Q%s){ %s, 1.5f }" % (self.uid, self.ex(1))
        return self.ex(2)

    def s_ret(self):
        if self.in_defer:
            return ";"
        if self.ret == "void" and self.s.chance(30):
            return "if (%s) return;" % self.cond(1)
        return "if (%s) return %s;" % (self.cond(1), self.retval())

    # ---- cleanup, defer, VLA
    def s_clean(self):
        s = self.s
        k = s.below(10)
        if k < 4:
            self.classes.add("cleanup")
            n = self.name("x")
            self.active.append(n)
            sc = s.below(5)
            if sc == 0:
                return "struct B %s __attribute__((cleanup(CB))) = { %s };" % (n, self.init())
            if sc == 1:
                n2 = self.name("x")
                self.active.append(n2)
                return "unsigned %s __attribute__((cleanup(C))) = %s, %s __attribute__((cleanup(C))) = %s;" % (n, self.init(), n2, self.init())
            t = "unsigned %s __attribute__((cleanup(C))) = %s;" % (n, self.init())
            self.vars = self.vars + [n]
            return t
        if k < 7 and self.ext:
            if self.in_defer:
                return ";"
            self.classes.add("defer")
            save, sv, lo = list(self.active), list(self.vars), self.loops
            self.loops = []
            self.in_defer += 1
            sb = self.labels, self.gotos, self.cleanup
            self.labels, self.gotos = [], []
            self.cleanup = s.chance(50)
            b = self.block()
            self.labels, self.gotos, self.cleanup = sb
            self.in_defer -= 1
            self.loops = lo
            self.active, self.vars = save, sv
            n = self.name("e")
            self.active.append(n)
            kw = s.choice(["defer", "_Defer", "defer"])
            return "\n#if S\n%s %s\n#else\nvoid f%s(int *p_) %s int %s __attribute__((cleanup(f%s)));\n#endif\n" % (kw, b, n, b, n, n)
        self.classes.add("vla")
        n = self.name("y")
        self.active.append(n)
        ty = s.choice(["int", "char", "long", "double", "short"])
        al = s.choice(["", "", "", " __attribute__((aligned(32)))", " __attribute__((aligned(64)))", " __attribute__((aligned(128)))"])
        k = s.below(4)
        if k == 0:
            d = "%s %s[%s %% 40 + 1]%s;" % (ty, n, self.ex(1), al)
        elif k == 1:
            d = "%s %s[%s %% 7 + 1][%s %% 5 + 1]%s;" % (ty, n, self.ex(1), self.ex(0), al)
        elif k == 2:
            d = "%s %s[2][%s %% 5 + 1]%s;" % (ty, n, self.ex(1), al)
        else:
            d = "typedef %s t%s[%s %% 9 + 1]; t%s %s%s;" % (ty, n, self.ex(1), n, n, al)
        self.active.append("t" + n)
        return d + " VL(%s, sizeof %s, %d); struct V k%s __attribute__((cleanup(VC))) = { (char *)%s, sizeof %s, vtop }; vtop = &k%s;" % (
            n, n, max(1, int(al.split("(((")[-1].split("(")[-1].rstrip(")")) if al else {"int": 4, "char": 1, "long": 8, "double": 8, "short": 2}[ty]), n, n, n, n)

    # ---- whole function
    def function(self):
        s = self.s
        uid = self.uid
        body = self.stmts(s.range(2, 6))
        fin = "return;" if self.ret == "void" else "return %s;" % self.retval()
        if self.ret == "void" and s.chance(50):
            fin = ""
        if self.ret != "void" and s.chance(6):
            fin = "for (;;) if (!F()) %s" % fin
        body += " TV(99, v0 + v1 * 31 + v2); " + fin
        for i, act in enumerate(self.gotos):
            ok = [n for n, a in self.labels if len(a) <= len(act) and all(x is y or x == y for x, y in zip(a, act))]
            g = "goto %s;" % s.choice(ok) if ok else ";"
            body = body.replace("\0G%d\0" % i, g)
            if "\0H%d\0" % i in body:
                h = ";"
                if ok:
                    tg = [s.choice(ok) for _ in range(s.range(1, 4))]
                    tn = "j%s_%d" % (uid, i)
                    h = "static void *%s[] = { %s }; if (F()) goto *%s[step++ %% %d];" % (tn, ", ".join("&&" + t for t in tg), tn, len(tg))
                body = body.replace("\0H%d\0" % i, h)
        rt = {"struct": "struct R%s" % uid, "small": "struct Q%s" % uid}.get(self.ret, self.ret)
        pre = "\n".join(self.globs)
        if self.ret == "struct":
            pre += "\nstruct R%s { unsigned a[%d]; }; static struct R%s mk%s(unsigned x) { struct R%s r = {{x, x + 1, x ^ 5}}; T(900); return r; }" % (uid, 5, uid, uid, uid)
        if self.ret == "small":
            pre += "\nstruct Q%s { unsigned a; float b; };" % uid
        code = "%s\nstatic %s fn%s(unsigned a) { unsigned v0 = a * 3, v1 = a ^ 5, v2 = 7;\n%s\n%s\n}\n" % (
            pre, rt, uid, self.locdecl(), body)
        call = "fn%s(%%s)" % uid
        show = {"void": "%s;", "double": "P((ull)(ll)%s);", "long double": "P((ull)(ll)%s);", "struct": "{ struct R%s r = %%s; PB(&r, sizeof r); }" % uid,
                "small": "{ struct Q%s q = %%s; PB(&q, 8); }" % uid}.get(self.ret, "P(%s);")
        calls = []
        for v in (s.below(16), s.below(100), s.bits(32)):
            calls.append("fuel = %d; step = %d; %s" % (s.choice([12, 25, 40]), s.below(5), show % (call % ("%uu" % v))))
        return code, " ".join(calls)

    def locdecl(self):
        return ""
