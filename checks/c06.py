"""C06: layout."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib import agg
from lib.agg import TG, Rec, Arr, Sc, Mem, leaves, INTS, I_CHAR


class C06(UnitCheck):
    id = "C06"
    rule = ("a case is one generated type (with the types it nests): sizeof, alignment, offsets, strides, member sizes and the bytes each member "
            "store touches are compared; non-trivial if it is a record with at least two members, an enum or an array of records")
    batches = {"quick": 1000, "thorough": 12000}
    prelude = PRELUDE + agg.PRELUDE + "#define A(x) ((int)((unsigned long)(x) %% _Alignof(x)))\n".replace("%%", "%")
    slimcc_flags = ["-std=c23", "-w"]
    units_per_batch = 24

    def gen_unit(self, src, uid):
        s = src
        tg = TG(src, uid, packed=s.chance(45), aligned=s.chance(50), enums=True, maxmem=s.choice([2, 3, 4, 6, 9, 12]),
                bitfields=s.chance(75))
        if s.chance(10):
            return self.u_enum(src, uid, tg)
        r = tg.record(s.choice([0, 1, 1, 2, 3]))
        if s.chance(25):
            for m in r.mems:
                if m.bits is None and m.name and s.chance(30) and not m.pre and "packed" not in r.attr and not m.post:
                    al = s.choice([1, 2, 4, 8, 16, 32])
                    # _Alignas may not weaken
                    m.pre = "_Alignas(%s) _Alignas(%d)" % (self.natural(m.ty), al)
                    tg.classes.add("alignas")
        if r.kind == "struct" and s.chance(15) and any(m.name for m in r.mems):
            e = tg.scalar() if s.chance(60) else tg.record(1)
            if "packed" not in r.attr:
                tg.defs = [d for d in tg.defs if not d.startswith(r.body()[:20]) or "{" not in d or True]
                r.mems.append(Mem("fl", Arr(e, None)))
                tg.classes.add("flexible")
        # the definition list holds the text made before these edits: rebuild it in order
        defs = [d for d in tg.defs if not d.startswith("%s %s%s " % (r.kind, r.attr + " " if r.attr else "", r.tag))] + [r.define()]
        n = r.spell()
        body = ["P(sizeof(%s)); P(_Alignof(%s));" % (n, n)]
        if not any(m.name == "fl" for m in r.mems):
            body.append("static %s arr%d[3]; P((char *)&arr%d[2] - (char *)arr%d); P((unsigned long)arr%d %% _Alignof(%s));" % (n, uid, uid, uid, uid, n))
            body.append("{ volatile int one = 1; %s au[2]; %s one_; P((unsigned long)au %% _Alignof(%s)); P((unsigned long)&one_ %% _Alignof(%s)); P((char *)(au + one) - (char *)au); }" % (n, n, n, n))
        # members
        obj = "o%d" % uid
        mems = self.members(r, "")
        for p, t, bits in mems:
            if bits is None:
                body.append("P(__builtin_offsetof(%s, %s));" % (n, p))
                if not (t.k == "a" and t.n is None):
                    body.append("P(sizeof(((%s *)0)->%s));" % (n, p))
                body.append("P((char *)&%s.%s - (char *)&%s);" % (obj, p, obj))
        lv = leaves(r, "%s" % obj, None)
        for p, sc, bits in s.sample(lv, min(len(lv), 10)):
            v = "(void *)-1" if sc.k == "p" else "-1" if sc.k == "f" or bits else "(%s)-1" % sc.spell()
            body.append("memset(&%s, 0, sizeof %s); %s = %s; PB(&%s, sizeof %s);" % (obj, obj, p, v, obj, obj))
        if s.chance(50):
            body.append("{ struct { char c; %s x; char d; } w_; P(sizeof w_); P((char *)&w_.x - (char *)&w_); P(&w_.d - (char *)&w_); }" % n
                        if not any(m.name == "fl" for m in r.mems) else "")
        if s.chance(40):
            body.append("{ typedef __typeof__(%s) T_ __attribute__((aligned(%d))); P(_Alignof(T_)); struct { char c; T_ x; } w_; P((char *)&w_.x - (char *)&w_); }" % (
                n, 1 << s.below(7)) if not any(m.name == "fl" for m in r.mems) else "")
        code = "\n".join(defs) + "\nstatic %s %s; static void fn%d(void) {\n%s\n}" % (n, obj, uid, "\n".join(body))
        return Unit(code, "fn%d();" % uid, sorted(tg.classes), len(r.mems) > 1)

    def natural(self, t):
        if t.k == "a":
            return self.natural(t.elem)
        return t.spell() if "@" not in getattr(t, "name", "") else "void *"

    def members(self, r, pre, depth=0):
        out = []
        for m in r.mems:
            if m.name is None:
                if m.ty.k == "r" and m.bits is None:
                    out += self.members(m.ty, pre, depth)
                continue
            p = pre + m.name
            out.append((p, m.ty, m.bits))
            t, q = m.ty, p
            if m.bits is None and t.k == "a" and t.n:
                while t.k == "a":
                    q += "[%d]" % (t.n - 1)
                    t = t.elem
                out.append((q, t, None))
            if m.bits is None and t.k == "r" and depth < 3:
                out += self.members(t, q + ".", depth + 1)
        return out

    def u_enum(self, src, uid, tg):
        s = src
        n = s.range(1, 6)
        fixed = s.choice([None, None, "char", "unsigned char", "short", "unsigned", "long", "unsigned long", "_Bool", "signed char", "long long"])
        lo, hi = {None: (-2**63, 2**63 - 1), "char": (-128, 127), "unsigned char": (0, 255), "short": (-2**15, 2**15 - 1), "unsigned": (0, 2**32 - 1),
                  "long": (-2**63, 2**63 - 1), "long long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "_Bool": (0, 1), "signed char": (-128, 127)}[fixed]
        vals, cur = [], 0
        for i in range(n):
            if s.chance(60):
                v = s.choice([0, 1, -1, lo, hi, 127, 128, 255, 256, 32767, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, 2**40])
                if fixed is None and s.chance(70):
                    v = s.choice([0, 5, -1, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 100])
                v = max(lo, min(hi, v))
                cur = v
                lit = "(-0x7fffffffffffffff-1)" if v == -2**63 else "%d%s" % (v, "u" if v >= 2**63 else "")
                vals.append("e%d_%d = %s" % (uid, i, lit))
            else:
                if i and cur > hi or cur in (2**31, 2**32, 2**63):
                    vals.append("e%d_%d = 0" % (uid, i))
                    cur = 0
                else:
                    vals.append("e%d_%d" % (uid, i))
            cur += 1
            if cur > hi:
                cur = 0
                break
        k = len(vals)
        nm = "enum E%d" % uid
        attr = ""        # packed enums are not a feature of slimcc (the attribute is ignored on enums)
        code = "%s%s %s{ %s };\nstatic void fn%d(void) { P(sizeof(%s)); P(_Alignof(%s)); P((%s)-1 < 0); struct { char c; %s e; char d; } w_; P(sizeof w_); P((char *)&w_.e - (char *)&w_);" % (
            nm.replace("enum ", "enum " + attr), " : " + fixed if fixed else "", "", ", ".join(vals), uid, nm, nm, nm, nm)
        for i in range(k):
            code += " P(e%d_%d); P(sizeof(e%d_%d)); w_.e = e%d_%d; P(w_.e); P((e%d_%d - e%d_%d - 1) < 0);" % ((uid, i) * 5)
        return Unit(code + " }", "fn%d();" % uid, ["enum-fixed" if fixed else "enum"])


CHECK = C06()
