"""C01: integer and pointer expressions."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib.cexpr import *


def make_vars(src, uid, n):
    """-> (globals text, locals text, params [(type, argtext)], list of Var, printouts)"""
    g, l, params, vs, dumps = [], [], [], [], []
    ptrs = []
    for i in range(n):
        t = src.choice(ITYPES)
        v = interesting(src, t)
        lit = literal(src, t, v, True)[0]
        k = src.weighted([(20, "auto"), (8, "global"), (6, "static"), (5, "param"), (6, "elem"), (4, "gelem"), (5, "member"),
                          (4, "gmember"), (5, "arrow"), (5, "deref"), (3, "volatile"), (3, "sglobal"), (3, "const"),
                          (3, "idx"), (3, "midx"), (2, "tls"), (2, "cptr"), (3, "bf"), (2, "slocalarr")])
        nm = "v%d_%d" % (uid, i)
        T_ = t.name
        if k == "auto":
            l.append("%s %s = %s;" % (T_, nm, lit))
            vs.append(Var(nm, t, v))
        elif k == "volatile":
            l.append("volatile %s %s = %s;" % (T_, nm, lit))
            vs.append(Var(nm, t, v))
        elif k == "const":
            l.append("%sconst %s %s = %s;" % (src.choice(["", "static "]), T_, nm, lit))
            vs.append(Var(nm, t, v, const=True))
        elif k == "global":
            g.append("%s %s = %s;" % (T_, nm, lit))
            vs.append(Var(nm, t, v))
        elif k == "sglobal":
            g.append("static %s %s;" % (T_, nm))
            l.append("%s = %s;" % (nm, lit))
            vs.append(Var(nm, t, v))
        elif k == "tls":
            g.append("_Thread_local %s %s = %s;" % (T_, nm, lit))
            vs.append(Var(nm, t, v))
        elif k == "static":
            l.append("static %s %s = %s;" % (T_, nm, lit))
            vs.append(Var(nm, t, v))
        elif k == "param":
            params.append((T_, nm, lit))
            vs.append(Var(nm, t, v))
        elif k in ("elem", "gelem", "slocalarr"):
            sz = src.range(1, 9)
            ix = src.below(sz)
            init = "{[%d] = %s}" % (ix, lit)
            (g if k == "gelem" else l).append("%s%s %s[%d] = %s;" % ("static " if k == "slocalarr" else "", T_, nm, sz, init))
            vs.append(Var(src.choice(["%s[%d]" % (nm, ix), "%d[%s]" % (ix, nm)]), t, v, P_POST))
        elif k in ("member", "gmember"):
            ot = src.choice(ITYPES).name
            (g if k == "gmember" else l).append("struct { %s a; struct { %s pad; %s m; } s[2]; } %s = {.s[1].m = %s};" % (
                ot, src.choice(ITYPES).name, T_, nm, lit))
            vs.append(Var("%s.s[1].m" % nm, t, v, P_POST))
        elif k == "bf":
            if t.boolean:
                w = 1
            else:
                w = t.bits        # full-width fields keep the declared range; narrower ones are C07's business
            if t.rank < 3:
                l.append("struct { %s a : %d; %s m : %d; } %s = {.m = %s};" % (T_, 1 if t.boolean else 3, T_, w, nm, lit))
                vs.append(Var("%s.m" % nm, t, v, P_POST, addr_ok=False))
            else:
                l.append("%s %s = %s;" % (T_, nm, lit))
                vs.append(Var(nm, t, v))
        elif k == "arrow":
            l.append("struct { char c; %s m; } %s_s = {1, %s}, *%s = &%s_s;" % (T_, nm, lit, nm, nm))
            vs.append(Var("%s->m" % nm, t, v, P_POST))
        elif k == "deref":
            off = src.choice([0, 1, -1, 2])
            l.append("%s %s_a[5] = {0,0,0,0,0}; %s *%s = %s_a + 2; %s[%d] = %s;" % (T_, nm, T_, nm, nm, nm, off, lit))
            if off:
                vs.append(Var("*(%s %s %d)" % (nm, "+" if off > 0 else "-", abs(off)), t, v, P_UNARY))
            else:
                vs.append(Var("*%s" % nm, t, v, P_UNARY))
        elif k == "cptr":
            l.append("%s %s_a = %s; char *%s = (char *)&%s_a - 4;" % (T_, nm, lit, nm, nm))
            vs.append(Var("*(%s *)(%s + 4)" % (T_, nm), t, v, P_UNARY))
        elif k == "idx":
            it = src.choice([INT, LONG, UCHAR, SHORT, UINT, SCHAR])
            ix = src.below(4)
            l.append("%s %s_a[4] = {[%d] = %s}; %s %s = %d;" % (T_, nm, ix, lit, it.name, nm, ix))
            vs.append(Var("%s_a[%s]" % (nm, nm), t, v, P_POST))
        elif k == "midx":
            l.append("struct { int x; %s m[3][4]; } %s[2] = {[1].m[2][1] = %s}; int %s_i = 2;" % (T_, nm, lit, nm))
            vs.append(Var("%s[1].m[%s_i][1]" % (nm, nm), t, v, P_POST))
    return g, l, params, vs


class C01(UnitCheck):
    id = "C01"
    rule = ("each case is one generated function: 3-9 integer objects in varied storage, 2-5 statements evaluating a random "
            "well-defined expression tree (depth 1-6) in a value, condition, argument, return, index, switch or void context; "
            "non-trivial = at least one operator applied to a non-constant operand")
    batches = {"quick": 1200, "thorough": 15000}
    units_per_batch = 40
    prelude = PRELUDE + CALL_PRELUDE

    def gen_unit(self, src, uid):
        kind = src.weighted([(70, "expr"), (18, "pair"), (10, "ptr"), (8, "pressure")])
        return getattr(self, "u_" + kind)(src, uid)

    def wrap(self, uid, g, l, params, body, classes):
        ps = ", ".join("%s %s" % (t, n) for t, n, _ in params) or "void"
        code = "\n".join(g) + "\nstatic void t_%d(%s) {\n%s\n%s\n}\n" % (uid, ps, "\n".join(l), "\n".join(body))
        return Unit(code, "t_%d(%s);" % (uid, ", ".join(a for _, _, a in params)), classes)

    def u_expr(self, src, uid):
        g, l, params, vs = make_vars(src, uid, src.range(2, 9))
        gen = Gen(src, vs)
        body = []
        helpers = []
        for k in range(src.range(1, 4)):
            gen.full()
            ctx = src.weighted([(12, "val"), (5, "if"), (3, "while"), (3, "ret"), (4, "void"), (3, "idx"), (3, "sw"), (3, "arg"),
                                (3, "opstore"), (2, "not"), (2, "logand"), (3, "narrow")])
            e = gen.expr(src.range(1, 5))
            gen.classes.add("ctx_" + ctx)
            s = e.s if e.p > P_COMMA else "(%s)" % e.s
            if ctx == "val":
                body.append("{ %s r = %s; P(r); }" % (e.t.name, s))
            elif ctx == "narrow":
                t = src.choice(ITYPES)
                body.append("{ %s r = %s; P(r); }" % (t.name, s))
            elif ctx == "if":
                body.append("if (%s) P(1); else P(2);" % s)
            elif ctx == "while":
                w = src.below(3)
                if w == 0:
                    body.append("{ int n = 0; while (n < 1 && (%s)) { P(3); n++; } P(n); }" % s)
                elif w == 1:
                    body.append("{ int n = 0; for (; !n && (%s); n++) P(5); P(n); }" % s)
                else:
                    body.append("{ int n = 0; do { P(4); if (n++) break; } while (!(n > 1 || !(%s))); P(n > 0); }" % s)
            elif ctx == "ret":
                # statement expression standing for a returned value in a nested block is covered by id_ calls
                t = src.choice(ITYPES)
                body.append("P(id_%s(%s));" % (t.name.replace(" ", "_").replace("_Bool", "bool"), s))
            elif ctx == "void":
                body.append("%s;" % e.s)
            elif ctx == "idx":
                body.append("{ short a[8] = {10,11,12,13,14,15,16,17}; P(a[(%s) & 7]); P(*(a + 7 - (%s & 7))); }" % (s, "3"))
            elif ctx == "sw":
                body.append("switch (%s) { case %d: P(7); break; case 5: case 9 ... 12: P(8); break; default: P(9); }" % (
                    s, src.choice([0, 1, 2, 100])))
            elif ctx == "arg":
                body.append("P(mix2(%s, %d));" % (s, src.below(9)))
            elif ctx == "opstore":
                t = src.choice(ITYPES)
                op = src.choice(["+=", "-=", "^=", "|=", "&=", "="])
                ct = common(t, e.t)
                if ct.signed and op in ("+=", "-="):
                    s = "(%s)(%s)" % (UNSIGNED_OF[ct].name, s)
                body.append("{ %s q = %d; q %s %s; P(q); }" % (t.name, src.below(100), op, s))
            elif ctx == "not":
                body.append("P(!(%s)); P(!!(%s + 0 == 0));" % (s, "1"))
            elif ctx == "logand":
                body.append("P((%s) && 1); " % s)
        for v in vs:
            body.append("P(%s);" % v.text)
        return self.wrap(uid, g, l, params, body, gen.classes | {"expr"})

    def u_pair(self, src, uid):
        """One operator with every combination of operand form, over several values: immediates and memory operands."""
        ta, tb = src.choice(ITYPES), src.choice(ITYPES)
        body, l, g = [], [], []
        for k in range(src.range(1, 4)):
            op = src.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%", "==", "!=", "<", "<=", ">", ">="])
            va, vb = interesting(src, ta), interesting(src, tb)
            pow2 = src.chance(12)       # the strength reductions of division and multiplication
            if pow2:
                op = src.choice(["/", "%", "%", "*"])
                vb = tb.wrap(src.choice([1, 1, 1, -1]) << src.below(tb.bits))
            gen = Gen(src, [])
            late = []
            forms = []
            for side, t, v in (("a", ta, va), ("b", tb, vb)):
                f = "lit" if pow2 and side == "b" else src.choice(["lit", "var", "gvar", "mem", "call", "cast", "static", "wide"])
                nm = "%s%d_%d" % (side, uid, k)
                lit, lp = literal(src, t, v)
                pl = literal(src, t, v, True)[0]
                if f == "lit":
                    e = Ex(lit, lp, t, v)
                elif f == "var":
                    l.append("%s %s = %s;" % (t.name, nm, pl))
                    e = Ex(nm, P_PRIM, t, v)
                elif f == "gvar":
                    g.append("%s %s = %s;" % (t.name, nm, pl))
                    e = Ex(nm, P_PRIM, t, v)
                elif f == "static":
                    g.append("static %s %s[2] = {0, %s};" % (t.name, nm, pl))
                    e = Ex(nm + "[1]", P_POST, t, v)
                elif f == "mem":
                    l.append("%s %s_v = %s, *%s = &%s_v;" % (t.name, nm, pl, nm, nm))
                    e = Ex("*" + nm, P_UNARY, t, v)
                elif f == "call":
                    e = Ex("id_%s(%s)" % (t.name.replace(" ", "_").replace("_Bool", "bool"), pl), P_POST, t, v)
                elif f == "cast":
                    st = src.choice(ITYPES)
                    sv = interesting(src, st)
                    l.append("%s %s = %s;" % (st.name, nm, literal(src, st, sv, True)[0]))
                    e = Ex("(%s)%s" % (t.name, nm), P_UNARY, t, t.wrap(sv))
                else:
                    st = src.choice([LONG, ULONG])
                    sv = interesting(src, st)
                    l.append("%s %s = %s;" % (st.name, nm, literal(src, st, sv, True)[0]))
                    e = Ex("(%s)(%s + 1)" % (t.name, nm) if sv != st.hi else "(%s)(%s)" % (t.name, nm), P_UNARY, t,
                           t.wrap(sv + (1 if sv != st.hi else 0)))
                if src.chance(15):
                    l.append("int n_%s = 0;" % nm)
                    late.append("P(n_%s);" % nm)
                    e = Ex("(n_%s++, %s)" % (nm, e.s), P_PRIM, t, e.v)
                forms.append(e)
            a, b = forms
            if op in ("<<", ">>"):
                bits = promote(a.t).bits
                n = b.v % bits if b.v >= 0 else 0
                cf = src.below(3)
                if cf == 0:
                    b = Ex(str(n), P_PRIM, INT, n)
                elif cf == 1:
                    l.append("%s sh%d_%d = %d;" % (src.choice(["int", "char", "unsigned long", "short"]), uid, k, n))
                    b = Ex("sh%d_%d" % (uid, k), P_PRIM, INT, n)
                else:
                    b = Ex("(%s & %d)" % (gen.par(b, P_AND), bits - 1), P_PRIM, INT, n)
                t = promote(a.t)
                if op == "<<" and t.signed:
                    a = gen.cast_to(a, UNSIGNED_OF[t])
                e = Ex("%s %s %s" % (gen.par(a, P_SHIFT), op, gen.par(b, P_SHIFT + 1)), P_SHIFT, promote(a.t), 0)
            else:
                e = gen.binop(op, a, b)
            rt = src.choice(ITYPES)
            body.append(src.choice(["P(%s);", "{ %s r = %%s; P(r); }" % rt.name, "if (%s) P(1); else P(0);", "P(!(%s));",
                                    "P((%s)(%%s));" % rt.name]) % e.s)
            body += late
        return self.wrap(uid, g, l, [], body, {"pair"})

    def u_ptr(self, src, uid):
        et = src.choice(["char", "short", "int", "long", "struct S%d" % uid, "int[3]", "char *", "double", "struct S%d[2]" % uid])
        szm = {"char": 1}
        g = ["struct S%d { char a[%d]; };" % (uid, src.range(1, 40)), "typedef %s;" % (
            "%s E%d" % (et, uid) if "[" not in et else "%s E%d[%s" % (et.split("[")[0], uid, et.split("[")[1]))]
        n = src.range(4, 20)
        i0, j0 = src.below(n), src.below(n)
        it = src.choice([INT, LONG, SHORT, UCHAR, UINT, SCHAR, ULONG, LLONG])
        l = ["%sE%d a[%d];" % (src.choice(["", "static "]), uid, n), "E%d *p = a + %d, *q = &a[%d];" % (uid, i0, j0),
             "%s i = %d, j = %d;" % (it.name, i0, j0), "char *b = (char *)a;"]
        body = []
        for k in range(src.range(2, 6)):
            c = src.below(14)
            d = src.range(-i0, n - 1 - i0)
            cd = src.choice(["(char)", "(short)", "(long)", "(unsigned char)", ""])
            if c == 0:
                body.append("P(p - q); P(q - p); P(p < q); P(p <= q); P(p > q); P(p >= q); P(p == q); P(p != q);")
            elif c == 1:
                body.append("{ E%d *r = p; r %s %d; P((char *)r - b); }" % (uid, "+=" if d >= 0 else "-=", abs(d)))
            elif c == 2:
                body.append("P((char *)(a + i) - b); P((char *)(j + a) - b); P((char *)&a[i] - b); P((char *)&i[a] - b);")
            elif c == 3:
                body.append("P((char *)(p - i) - b); P((char *)(&p[-(long)i]) - b);")
            elif c == 4:
                if i0 < n - 1:
                    body.append("{ E%d *r = p; P((char *)(r++) - b); P((char *)r - b); P((char *)(--r) - b); P((char *)(++r) - b); P((char *)(r--) - b); }" % uid)
            elif c == 5:
                body.append("P((char *)(p + (%s%d)) - b); " % (cd, d) if d >= 0 or "unsigned" not in cd else "P(1);")
            elif c == 6:
                body.append("P(!p); P(p ? 3 : 4); P(p && q); P(!p || !q); P(p == 0); P((void *)p != 0); P((_Bool)p);")
            elif c == 7:
                body.append("P((u64)((char *)p - b) / sizeof(E%d)); P((i64)p - (i64)a); P((u32)((u64)p - (u64)q));" % uid)
            elif c == 8:
                body.append("{ E%d *r = %s ? p : q; P((char *)r - b); }" % (uid, src.choice(["i", "i - i", "j > i", "1", "0"])))
            elif c == 9:
                body.append("{ E%d **pp = &p; P((char *)(*pp + %d) - b); *pp += %d; P((char *)p - b); p -= %d; }" % (uid, d, d, d))
            elif c == 10:
                body.append("{ i64 k = %d; P((char *)(p + k) - b); k = -k; P((char *)(p - k) - b); }" % d)
            elif c == 11:
                body.append("P(&a[%d] - &a[%d]); P((char *)(&a)[1] - b); P(sizeof(a) / sizeof *a); P((char *)(&a + 1) - (char *)a);" % (i0, j0))
            elif c == 12:
                body.append("{ unsigned char k = %d; E%d *r = a; r += k; P((char *)r - b); r -= k; P((char *)r - b); P((char *)&r[k] - b); }" % (i0, uid))
            else:
                body.append("{ E%d *volatile r = p; int k = (int)(r - a); P(k); P((char *)(r - k + j) - b); }" % uid)
        return self.wrap(uid, g, l, [], body, {"pointer"})

    def u_pressure(self, src, uid):
        """Deep trees with many simultaneously live temporaries, calls and divisions in the middle."""
        g, l, params, vs = make_vars(src, uid, src.range(3, 6))
        gen = Gen(src, vs, types=[LONG, ULONG, INT, UINT, UCHAR])

        def deep(d):
            if d == 0:
                gen.classes.add("pressure")
                return gen.leaf() if src.chance(70) else gen.expr(1)
            r = deep(d - 1)
            lft = gen.expr(src.below(3))
            op = src.choice(["+", "-", "^", "*", "|", "/", "&"])
            if src.chance(75):
                return gen.binop(op, lft, r)
            return gen.binop(op, r, lft)
        body = []
        for k in range(src.range(1, 2)):
            gen.full()
            e = deep(src.range(3, 14))
            body.append("{ %s r = %s; P(r); }" % (e.t.name, e.s))
        for v in vs:
            body.append("P(%s);" % v.text)
        return self.wrap(uid, g, l, params, body, gen.classes)


CHECK = C01()
