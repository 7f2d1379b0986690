"""C07: bit-fields."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib import agg
from lib.agg import TG, Rec, Arr, Sc, Mem, leaves, value, INTS, I_CHAR, I_INT
from lib.cexpr import interesting


class C07(UnitCheck):
    id = "C07"
    rule = ("a case is one generated record with bit-fields and a random history of stores (assignment, compound assignment, ++/--, chains, "
            "initialisation, copies) through varied access paths; after each step every byte of the object and the value of the expression are "
            "compared; non-trivial if the record has a named bit-field")
    batches = {"quick": 1000, "thorough": 12000}
    prelude = PRELUDE + agg.PRELUDE
    slimcc_flags = ["-std=c23", "-w"]
    units_per_batch = 24

    def gen_unit(self, src, uid):
        s = src
        tg = TG(src, uid, packed=s.chance(30), aligned=s.chance(15), ld=False, flt=False, ptrs=False, unions=s.chance(30), maxmem=s.choice([2, 3, 4, 6, 9]),
                arrays=s.chance(30))
        r = tg.record(s.choice([0, 0, 1]))
        lv = leaves(r, "")
        if sum(1 for x in lv if x[2] is not None) < 1:
            nb = Mem("bz", s.choice(INTS), 1)
            nb.bits = 1 if nb.ty.t.boolean else 1 + s.below(nb.ty.t.bits)
            r.mems.append(nb)
        defs = [d for d in tg.defs if not d.startswith("%s %s%s " % (r.kind, r.attr + " " if r.attr else "", r.tag))] + [r.define()]
        lv = leaves(r, "", lambda rec, mems: mems[s.below(len(mems))])
        bf = [x for x in lv if x[2] is not None] or lv
        n = r.spell()
        body = []
        g = "g%d" % uid
        decls = ["static %s %s;" % (n, g)]
        ld = ["%s o; %s a[3]; %s *p = &o; volatile %s vo;" % (n, n, n, n)]
        ld.append("struct { char c; %s in; } w;" % n)
        objs = [("o", "o"), ("p->", "o"), (g, g), ("a[1]", "a"), ("a[k]", "a"), ("w.in", "w"), ("(*p)", "o"), ("(&%s)->" % g, g), ("vo", "vo"), ("(*&a[k - 1])", "a")]
        fills = {"o": "o", g: g, "a": "a", "w": "w", "vo": "vo"}
        for f in fills:
            ld.append("memset((void *)&%s, %s, sizeof %s);" % (f, s.choice(["0", "0xff", "0xa5", "0x5a", "0x11"]), f))

        def path(o, p):
            return o[:-2] + "->" + p[1:] if o.endswith("->") else o + p

        def whole(o):
            return "*" + o[:-2] if o.endswith("->") else o

        def rhs(sc, bits):
            k = s.below(10)
            if k < 4:
                return value(s, sc, bits if s.chance(60) else None)
            if k < 6:
                q, qs, qb = s.choice(lv)
                return path(s.choice(objs)[0], q)
            if k == 6:
                q, qs, qb = s.choice(bf)
                return "(%s %s %s)" % (path("o", q), s.choice(["+", "-", "*", "&", "|", "^"]), s.choice(["1", "3u", "x", "-1"]))
            if k == 7:
                return "x"
            if k == 8:
                return s.choice(["1.75", "-3.5f", "200.0", "(float)k"]) if not sc.t.boolean and sc.t.signed and (bits or sc.t.bits) > 9 else "k"
            q, qs, qb = s.choice(bf)
            return "(%s ? %s : x)" % (path("o", q), path(g, q))

        def show(sc, bits, e):
            # gcc gives wide bit-fields their own width in expressions: convert before use
            return "P((ull)(%s));" % e

        for _ in range(s.range(3, 10)):
            o, base = s.choice(objs)
            p, sc, bits = s.choice(bf) if s.chance(85) else s.choice(lv)
            l = path(o, p)
            k = s.below(16)
            if k < 4:
                st = show(sc, bits, "%s = %s" % (l, rhs(sc, bits)))
            elif k < 6:
                op = s.choice(["+=", "-=", "|=", "&=", "^=", "*="])
                st = show(sc, bits, "%s %s %s" % (l, op, s.choice(["1", "x & 7", "3", value(s, I_INT), "k", "2.5" if op in "+=-=*=" and not sc.t.boolean else "5"])))
            elif k == 6:
                op = s.choice(["<<=", ">>=", "/=", "%="])
                c = str(1 + s.below(7))
                st = show(sc, bits, "%s %s %s" % (l, op, c))
            elif k < 9:
                f = s.choice(["++%s", "%s++", "--%s", "%s--"])
                st = show(sc, bits, f % l)
            elif k == 9:
                p2, sc2, b2 = s.choice(bf)
                st = show(sc, bits, "%s = %s = %s" % (l, path(s.choice(objs)[0], p2), rhs(sc2, b2)))
            elif k == 10:
                st = "%s = (%s){ %s };" % (whole(o), n, ", ".join("%s = %s" % (q, value(s, qs, qb)) for q, qs, qb in s.sample(lv, min(2 if r.kind == "struct" else 1, len(lv)))) if lv else "0") if not o.startswith("vo") else ";"
            elif k == 11:
                st = "if (%s) P(1); P((ull)!%s);" % (l, l)
                if bits is None or bits < 32:
                    st += " P((ull)(%s + 1)); P((ull)(%s << 3)); P(-1 < %s); P(sizeof(+%s));" % (l, l, l, l)
            elif k == 12:
                st = "P((ull)((%s)%s));" % (s.choice(["long", "unsigned char", "short", "_Bool", "unsigned", "double", "float"]).replace("double", "long").replace("float", "int"), l)
            elif k == 13:
                st = "P((ull)fr%d(%s)%s);" % (uid, whole(o) if o != "vo" else "o", p)
            elif k == 14 and o != "vo":
                st = "{ %s t = { %s }; %s = t; }" % (n, ", ".join("%s = %s" % (q, rhs(qs, qb)) for q, qs, qb in s.sample(lv, min(3 if r.kind == "struct" else 1, len(lv)))), whole(o))
            else:
                p2, sc2, b2 = s.choice(bf)
                st = "%s = k, %s = x;" % (l, path(o, p2))
                if s.chance(50):
                    st = "%s ? (%s = 1) : (%s = 2);" % (path(o, p2), l, path(o, p2))
            if k == 10 or k == 14:
                # padding is unspecified after this: show the members, then start from known bytes again
                st += " " + " ".join("P((ull)%s);" % path(o, q) for q, qs, qb in lv[:12]) + " memset((void *)&%s, 0x%x, sizeof %s);" % (base, s.choice([0, 255, 0x5a]), base)
            body.append(st + " PB((void *)&%s, sizeof %s);" % (base, base))
        code = "\n".join(defs + decls) + "\nstatic %s fr%d(%s q) { return q; }\nstatic void fn%d(int k, long x) {\n%s\n%s\n}" % (
            n, uid, n, uid, "\n".join(ld), "\n".join(body))
        return Unit(code, "fn%d(1, %s);" % (uid, value(s, s.choice(INTS[:8]))), sorted(tg.classes), True)


CHECK = C07()
