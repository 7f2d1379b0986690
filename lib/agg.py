"""Random C object types: scalars, arrays, structs, unions, bit-fields; declarations, leaves, values, printing."""
from lib.cexpr import ITYPES, INT, UINT, LONG, ULONG, CHAR, UCHAR, SHORT, USHORT, SCHAR, BOOL, LLONG, ULLONG, interesting


class Sc:
    """Scalar.  k: 'i' integer (t: cexpr type), 'f' float/double/long double, 'p' pointer, 'e' enum."""

    def __init__(self, k, name, t=None, size=None):
        self.k, self.name, self.t, self.size = k, name, t, size

    def decl(self, n):
        if "@" in self.name:
            return self.name.replace("@", n)
        return "%s %s" % (self.name, n)

    def spell(self):
        return self.name.replace("@", "")


class Arr:
    k = "a"

    def __init__(self, elem, n):
        self.elem, self.n = elem, n

    def decl(self, n):
        return self.elem.decl("%s[%s]" % (n, "" if self.n is None else self.n))


class Mem:
    def __init__(self, name, ty, bits=None, pre="", post=""):
        self.name, self.ty, self.bits, self.pre, self.post = name, ty, bits, pre, post


class Rec:
    k = "r"

    def __init__(self, kind, tag, mems, attr="", anon=False):
        self.kind, self.tag, self.mems, self.attr, self.anon = kind, tag, mems, attr, anon

    def decl(self, n):
        if self.anon:
            return "%s %s" % (self.body(), n)
        return "%s %s %s" % (self.kind, self.tag, n)

    def spell(self):
        return "%s %s" % (self.kind, self.tag)

    def body(self):
        s = []
        for m in self.mems:
            if m.bits is not None:
                d = "%s : %d" % (m.ty.decl(m.name or ""), m.bits)
            else:
                d = m.ty.decl(m.name or "")
            s.append("%s%s%s;" % (m.pre + " " if m.pre else "", d, " " + m.post if m.post else ""))
        return "%s %s%s { %s }" % (self.kind, self.attr + " " if self.attr else "", "" if self.anon else self.tag, " ".join(s))

    def define(self):
        return self.body() + ";"


INTS = [Sc("i", t.name, t) for t in ITYPES]
I_INT, I_UINT, I_LONG, I_ULONG, I_CHAR, I_UCHAR, I_SHORT, I_USHORT, I_SCHAR, I_BOOL, I_LL, I_ULL = INTS
FLT, DBL, LDBL = Sc("f", "float"), Sc("f", "double"), Sc("f", "long double")
PTRC, PTRV, PTRI = Sc("p", "char *"), Sc("p", "void *"), Sc("p", "int *")
FPTR = Sc("p", "int (*@)(void)")


class TG:
    """Type generator.  Emits the definitions of the record types it makes into self.defs."""

    def __init__(self, src, uid, bitfields=True, unions=True, arrays=True, ld=True, packed=False, aligned=False, anon=True,
                 enums=False, maxmem=5, ptrs=True, flt=True, zero_bits=True, over=0):
        self.src, self.uid = src, uid
        self.o = dict(bitfields=bitfields, unions=unions, arrays=arrays, ld=ld, packed=packed, aligned=aligned, anon=anon,
                      enums=enums, ptrs=ptrs, flt=flt, zero_bits=zero_bits, over=over)
        self.maxmem = maxmem
        self.defs = []
        self.n = 0
        self.mn = 0
        self.recs = []
        self.classes = set()

    def fresh(self, p="S"):
        self.n += 1
        return "%s%s_%d" % (p, self.uid, self.n)

    def scalar(self):
        s, o = self.src, self.o
        k = s.below(10)
        if k < 6 or (k < 8 and not o["flt"]):
            if o["enums"] and s.chance(10):
                return self.enum()
            return s.choice(INTS)
        if k < 9 and o["flt"]:
            r = s.choice([DBL, FLT, DBL, FLT, LDBL])
            return DBL if r is LDBL and not o["ld"] else r
        if o["ptrs"]:
            return s.choice([PTRC, PTRV, PTRI, FPTR])
        return s.choice(INTS)

    def enum(self):
        s = self.src
        tag = self.fresh("E")
        k = s.below(4)
        if k == 0:
            t, vals, base = UINT, (0, s.choice([1, 100, 0x7fffffff])), ""
        elif k == 1:
            t, vals, base = INT, (-1 - s.below(5), s.below(200)), ""
        elif k == 2:
            t, vals, base = UINT, (0, 0x80000000 + s.below(100)), ""
        else:
            b = s.choice([CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, SCHAR])
            t, vals, base = b, (b.lo, b.hi), " : " + b.name
        def lit(v):
            if v == -(1 << 63):
                return "(-0x7fffffffffffffff-1)"
            return str(v) + ("u" if v > 0x7fffffffffffffff else "")
        self.defs.append("enum %s%s { %s_a = %s, %s_b = %s };" % (tag, base, tag, lit(vals[0]), tag, lit(vals[1])))
        self.classes.add("enum-fixed" if base else "enum")
        e = Sc("i", "enum " + tag, t)
        e.isenum = True
        return e

    def bitfield(self, union):
        s = self.src
        t = s.choice([I_INT, I_UINT, I_LONG, I_ULONG, I_CHAR, I_UCHAR, I_SHORT, I_USHORT, I_SCHAR, I_LL, I_ULL, I_BOOL])
        mx = 1 if t is I_BOOL else t.t.bits
        w = s.choice([1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64])
        w = min(w, mx) if s.below(3) else 1 + s.below(mx)
        if self.o["zero_bits"] and not union and s.chance(10):
            return Mem(None, t, 0 if s.chance(60) or self.o["zero_bits"] == "zero" else w)
        return Mem(self.mname(), t, w)

    def mname(self):
        self.mn += 1
        return "m%d" % self.mn

    def record(self, depth, fam=None):
        s, o = self.src, self.o
        union = o["unions"] and s.chance(18)
        n = 1 + s.below(self.maxmem)
        mems = []
        bitheavy = o["bitfields"] and s.chance(30)
        for i in range(n):
            if o["bitfields"] and (s.chance(12) or (bitheavy and s.chance(75))):
                m = self.bitfield(union)
            else:
                if o["anon"] and depth > 0 and s.chance(10):
                    t = self.record(depth - 1)
                    t.anon = True
                    self.defs.pop()
                    m = Mem(None, t)
                    self.classes.add("anonymous-member")
                else:
                    m = Mem(self.mname(), self.type(depth - 1, fam))
            twice = m.ty.k == "r" and m.ty.anon and "aligned" in m.ty.attr     # gcc: last one wins, clang: the largest
            if o["aligned"] and m.bits is None and s.chance(10) and not twice:
                a = 1 << s.below(7)
                if m.ty.k == "i" or s.chance(50):
                    m.post = "__attribute__((aligned(%d)))" % a
                    self.classes.add("aligned-member")
            if o["aligned"] and m.bits and m.name and not union and s.chance(12):
                m.post = "__attribute__((aligned(%d)))" % (1 << s.below(6))
                self.classes.add("aligned-bitfield")
            if o["packed"] and s.chance(6) and not (m.ty.k == "r" and m.ty.anon):
                m.post = "__attribute__((packed))"
                self.classes.add("packed-member")
            if m.bits is not None:
                self.classes.add("bitfield" if m.name else "bitfield-unnamed")
            mems.append(m)
        if all(m.name is None and m.bits is not None for m in mems):
            mems.append(Mem(self.mname(), I_CHAR))
        attr = ""
        if o["packed"] and s.chance(15):
            attr = "__attribute__((packed%s))" % s.choice(["", "", ",aligned(2)", ",aligned(4)", ",aligned(8)"])
            self.classes.add("packed")
        elif o["over"] and s.chance(o["over"]):
            attr = "__attribute__((aligned(%d)))" % s.choice([16, 32, 64, 128])
            self.classes.add("over-aligned")
        elif o["aligned"] and s.chance(10):
            attr = "__attribute__((aligned(%d)))" % (1 << s.below(7))
            self.classes.add("aligned")
        r = Rec("union" if union else "struct", self.fresh("U" if union else "S"), mems, attr)
        if union:
            self.classes.add("union")
        self.defs.append(r.define())
        self.recs.append(r)
        return r

    def type(self, depth=1, fam=None):
        s, o = self.src, self.o
        k = s.below(10)
        if depth > 0 and k >= 8:
            return self.record(depth, fam)
        if depth > 0 and o["arrays"] and k == 7:
            self.classes.add("array-member")
            return Arr(self.type(depth - 1, fam), 1 + s.below(4))
        if fam and s.chance(70):
            return s.choice(fam)
        return self.scalar()


def leaves(ty, path, pick=None, out=None):
    """[(path, Sc, bits)] of the named scalar parts; for a union the member pick(rec) selects."""
    if out is None:
        out = []
    if ty.k == "a":
        for i in range(ty.n or 0):
            leaves(ty.elem, "%s[%d]" % (path, i), pick, out)
    elif ty.k == "r":
        mems = [m for m in ty.mems if not (m.bits is not None and m.name is None)]
        if ty.kind == "union":
            mems = [pick(ty, mems)] if pick else mems[:1]
        for m in mems:
            if m.bits is not None:
                out.append(("%s.%s" % (path, m.name), m.ty, m.bits))
            elif m.name is None:
                leaves(m.ty, path, pick, out)
            else:
                leaves(m.ty, "%s.%s" % (path, m.name), pick, out)
    else:
        out.append((path, ty, None))
    return out


FVALS = ["1.5", "-2.25", "0.0", "-0.0", "1e10", "-3.0", "0x1.8p-20", "123456.5", "1e-3", "7"]


def value(src, sc, bits=None):
    """A constant expression assignable to sc (value kept exactly)."""
    if sc.k == "f":
        v = src.choice(FVALS)
        return v + ("l" if sc.name == "long double" and "." in v else "")
    if sc.k == "p":
        return "(void *)0x%x" % (src.bits(40) if src.below(4) else 0)
    t = sc.t
    v = interesting(src, t)
    if bits is not None and not t.boolean:
        v &= (1 << bits) - 1
        if t.signed and v >> (bits - 1):
            v -= 1 << bits
    if v == -(1 << 63):
        return "(-0x7fffffffffffffffl-1)"
    if t.bits == 64:
        return "%d%s" % (v, "ul" if not t.signed else "l")
    return str(v) + ("u" if not t.signed and t.bits == 32 else "")


def show(path, sc):
    """Statement printing one leaf."""
    if sc.k == "f":
        if sc.name == "long double":
            return "PL(%s);" % path
        return "PD(%s);" % path
    return "P((ull)%s);" % path


PRELUDE = r'''
static void PL(long double x) { u64 u[2] = {0, 0}; memcpy(u, &x, 10); printf("L%lx%016lx\n", u[1], u[0]); }
static void PD(double x) { u64 u; memcpy(&u, &x, 8); printf("D%lx\n", u); }
'''
