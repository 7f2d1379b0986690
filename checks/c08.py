"""C08: initialisers."""
import re
from lib.diff import UnitCheck, Unit, PRELUDE
from lib import agg
from lib.agg import TG, Rec, Arr, Sc, Mem, value, INTS, I_CHAR, I_UCHAR, I_SCHAR, I_INT, I_UINT, I_USHORT, PTRC, PTRV, PTRI

STRS = ["", "a", "abc", "hello", "\\0x", "a\\\"b", "\\xff\\x80", "12345678", "a" "b\\n", "\\101\\0\\7z", "zz\\0\\0q"]
U8 = ["\u00e9", "\u20ac", "\U0001f600x"]


def strlen_units(body, width):
    """Number of elements (without terminator) of the literal body (as written in C) at the given width."""
    n, i = 0, 0
    while i < len(body):
        c = body[i]
        if c == "\\":
            if body[i + 1] == "x":
                j = i + 2
                while j < len(body) and body[j] in "0123456789abcdefABCDEF":
                    j += 1
                i = j
            elif body[i + 1] in "01234567":
                j = i + 1
                while j < len(body) and j < i + 4 and body[j] in "01234567":
                    j += 1
                i = j
            else:
                i += 2
            n += 1
            continue
        o = ord(c)
        n += {8: len(c.encode()), 16: 2 if o > 0xffff else 1, 32: 1}[width]
        i += 1
    return n


class IG:
    """Initialiser generator: follows C's current-object cursor, so every initialiser is well formed."""

    def __init__(self, src, auto, svars, ptrs):
        self.s, self.auto, self.svars, self.ptrs = src, auto, svars, ptrs
        self.touched = set()   # scalar paths set so far
        self.active = {}       # union path -> member
        self.classes = set()
        self.budget = 60
        self.nostr = self.force = False

    # -- scalars
    def touch(self, path):
        self.touched.add(path)

    def was_touched(self, path):
        return any(p.startswith(path) or path.startswith(p) for p in self.touched)

    def expr(self, sc, bits):
        s = self.s
        self.budget -= 1
        if sc.k == "p":
            if self.ptrs and s.chance(60):
                self.classes.add("address-constant")
                return self.ptrs(s, sc, self.auto)
            return value(s, sc, bits)
        if self.auto and s.chance(15):
            self.classes.add("non-constant")
            if sc.k == "f":
                return s.choice(["k", "fk(3)", "1.5 * k", "d"])
            return s.choice(["k", "x", "fk(%d)" % s.below(9), "(k ? x : 3)", "k + 4"])
        if sc.k == "f":
            if s.chance(20):
                return value(s, I_INT)
        elif not sc.t.boolean and (bits or 32) > 9 and s.chance(6) and sc.t.bits >= 16:
            self.classes.add("float-to-int")
            return s.choice(["2.75", "-3.5f", "100.25l"]) if sc.t.signed else "2.75"
        if self.auto and sc.k == "i" and s.chance(8) and not getattr(sc, "isenum", 0):
            self.classes.add("indexed-string")
            return s.choice(["\"abc\"[1]", "*\"xyz\"", "sizeof \"four\"", "\"ab\"[0] + 1", "u8\"q\"[0]", "L\"wz\"[1]", "(\"par\")[2]", "1[\"mn\"]"])
        if sc.k == "i" and s.chance(8) and not getattr(sc, "isenum", 0):
            return s.choice(["sizeof(int)", "'x'", "-1", "1 == 1", "0x1ffffffffull", "'\\xf0'", "(char)300", "2 + 3 * 4"])
        return value(s, sc, bits if s.chance(70) else None)

    def scalar(self, sc, bits):
        e = self.expr(sc, bits)
        if self.s.chance(6):
            self.classes.add("braced-scalar")
            return "{ %s%s }" % (e, self.s.choice(["", ","]))
        return e

    # -- strings
    def strable(self, ty):
        if ty.k != "a" or ty.elem.k != "i":
            return None
        n = ty.elem.name
        if n in ("char", "signed char", "unsigned char"):
            return 8
        if n == "int":
            return "L"
        if n == "unsigned int":
            return "U"
        if n == "unsigned short":
            return "u"
        return None

    def string(self, ty):
        s = self.s
        w = self.strable(ty)
        width = {8: 8, "L": 32, "U": 32, "u": 16}[w]
        pre = "" if w == 8 else w
        cand = [b for b in STRS + (U8 if width != 8 or s.chance(30) else [])
                if ty.n is None or strlen_units(b, width) <= ty.n]
        if width != 8:
            cand = [b for b in cand if "\\xff\\x80" not in b]
        if not cand:
            return None
        b = s.choice(cand)
        ln = strlen_units(b, width)
        if w == 8 and s.chance(15):
            pre = "u8"
        if ty.n is None:
            ty.n = ln + 1
            self.inferred = True
        self.classes.add("string" + ("" if width == 8 else str(width)))
        if ty.n == ln:
            self.classes.add("string-without-terminator")
        t = '%s"%s"' % (pre, b)
        if len(b) > 3 and "\\" not in b and s.chance(20):
            t = '%s"%s" %s"%s"' % (pre, b[:2], s.choice([pre, pre if pre == "u8" else ""]), b[2:])
            self.classes.add("string-concatenation")
        if s.chance(20):
            t = "{ %s }" % t
        return t

    def mems(self, r):
        return [m for m in r.mems if not (m.bits is not None and m.name is None)]

    def clear(self, path):
        for k in list(self.active):
            if k.startswith(path):
                del self.active[k]

    def whole(self, ty, path):
        """A struct-valued expression for ty (automatic objects only), or None."""
        s = self.s
        if not self.auto or ty.k != "r" or ty.anon:
            return None
        c = []
        if ty.tag in self.svars:
            c.append(self.svars[ty.tag])
            c.append("fk(1) ? %s : %s" % (self.svars[ty.tag], self.svars[ty.tag]))
        sub = IG(s, self.auto, {}, self.ptrs)
        sub.budget = 6
        if not c or s.chance(40):
            body = sub.braced(ty, path)
            self.clear(path)
            self.active.update(sub.active)
            self.classes.add("compound-literal-value")
            return "(%s)%s" % (ty.spell(), body)
        self.clear(path)
        self.classes.add("struct-valued-element")
        return s.choice(c)

    def any(self, ty, path, bits=None):
        """Full initialiser for one object."""
        s = self.s
        nostr, self.nostr = self.nostr, False
        try:
            return self.any2(ty, path, bits, nostr)
        finally:
            self.nostr = nostr
            self.touch(path)

    def any2(self, ty, path, bits, nostr):
        s = self.s
        self.clear(path)
        if ty.k not in "ar":
            return self.scalar(ty, bits)
        if self.strable(ty) and not nostr and s.chance(55):
            t = self.string(ty)
            if t:
                return t
        if s.chance(25):
            w = self.whole(ty, path)
            if w:
                return w
        return self.braced(ty, path)

    # -- cursor: list of [aggregate, index, path]
    def child(self, ty, i, path):
        """(type, bits, path, designator) of the i-th subobject."""
        if ty.k == "a":
            return ty.elem, None, "%s[%d]" % (path, i)
        m = self.mems(ty)[i]
        return m.ty, m.bits, "%s.%s" % (path, m.name) if m.name else "%s.%%%d" % (path, i)

    def count(self, ty):
        if ty.k == "a":
            return ty.n if ty.n is not None else 6
        return len(self.mems(ty))

    def advance(self, stack):
        if stack:
            a = stack[-1][0]
            stack[-1][1] = stack[-1][1] + 1 if a.k == "a" or a.kind == "struct" else 1 << 30

    def enter(self, ty, i, path):
        if ty.k == "r" and ty.kind == "union":
            old = self.active.get(path)
            self.active[path] = i
            if old is not None and old != i:
                for k in list(self.active):
                    if k.startswith(path) and k != path:
                        del self.active[k]
        if ty.k == "a" and ty.n is None:
            self.maxi = max(self.maxi, i)

    def braced(self, ty, path):
        s = self.s
        self.clear(path)
        # known finding: an array list in braces keeps what it overrides where it is silent (the test suite asks for that)
        full = ty.k == "a" and ty.n and (self.force or self.was_touched(path))
        if full:
            its = []
            force, self.force = self.force, True
            for j in range(ty.n):
                t, bits, cp = self.child(ty, j, path)
                its.append(self.any(t, cp, bits))
            self.force = force
            return "{ %s }" % ", ".join(its)
        if ty.k == "r":
            self.touched = {p for p in self.touched if not p.startswith(path)}
        unknown = ty.k == "a" and ty.n is None
        if unknown:
            self.maxi = -1
        if s.chance(8) and not unknown:
            self.classes.add("empty-braces")
            return "{ }"
        items = []
        stack = [[ty, 0, path]]
        if self.count(ty) == 0:
            return "{ }"
        first = True
        want = 1 + s.below(s.choice([3, 6, 12]))
        while len(items) < want and self.budget > 0 or (unknown and self.maxi < 0):
            des = ""
            if s.chance(25):
                des, stack = self.designate(ty, path)
            while stack and stack[-1][1] >= self.count(stack[-1][0]):
                stack.pop()
                self.advance(stack)
                self.nostr = self.nostr or "nested-designator" in self.classes      # gcc and clang go wrong on strings here
            if not stack:
                break
            a, i, p = stack[-1]
            self.enter(a, i, p)
            t, bits, cp = self.child(a, i, p)
            if des and des.endswith("] = ") and "..." in des:
                # a range: every element gets the same (constant) initialiser
                lo, hi = self.range
                if any(self.was_touched("%s[%d]" % (p, j)) for j in range(lo, hi + 1)):
                    self.force = True
                auto, self.auto = self.auto, False
                txt = self.any(t, cp, bits)
                self.auto, self.force = auto, False
                sub = {k: v for k, v in self.active.items() if k.startswith(cp)}
                for j in range(lo + 1, hi + 1):
                    self.clear("%s[%d]" % (p, j))
                    self.enter(a, j, p)
                    self.touch("%s[%d]" % (p, j))
                    for k, v in sub.items():
                        self.active["%s[%d]" % (p, j) + k[len(cp):]] = v
                stack[-1][1] = hi
            elif t.k in "ar" and self.count(t) > 0 and s.chance(45):
                # elide the braces: descend
                self.classes.add("elided-braces")
                self.clear(cp)
                txt = None
                while t.k in "ar":
                    if self.strable(t) and not self.nostr and s.chance(60):
                        txt = self.string(t)
                        if txt and txt.startswith("{"):
                            txt = txt[2:-2]
                        if txt:
                            break
                    if t.k == "r" and s.chance(15) and t is not ty:
                        txt = self.whole(t, cp)
                        if txt:
                            break
                    stack.append([t, 0, cp])
                    self.enter(t, 0, cp)
                    t, bits, cp = self.child(t, 0, cp)
                    if t.k in "ar" and self.count(t) == 0:
                        return "{ }"
                self.touch(cp)
                if txt is None:
                    txt = self.expr(t, bits)
            else:
                txt = self.any(t, cp, bits)
            items.append(des + txt)
            if not stack:
                break
            self.advance(stack)
        if unknown:
            ty.n = self.maxi + 1
            self.inferred = True
        return "{ %s%s }" % (", ".join(items), s.choice(["", "", ","]) if items else "")

    def designate(self, ty, path):
        """Random designator list within ty: text and the new cursor."""
        s = self.s
        stack, text = [], ""
        t, p = ty, path
        rng = False
        while True:
            n = self.count(t)
            if t.k == "r":
                ms = self.mems(t)
                i = s.below(len(ms))
                m = ms[i]
                if m.name is None:
                    # the member of an anonymous record: named directly
                    stack.append([t, i, p])
                    self.enter(t, i, p)
                    t, p = m.ty, "%s.%%%d" % (p, i)
                    continue
                text += "." + m.name
            else:
                i = s.below(n)
                if s.chance(20) and i + 1 < n:
                    j = s.range(i + 1, n - 1)
                    text += "[%d ... %d]" % (i, j)
                    self.range = (i, j)
                    rng = True
                    self.classes.add("range-designator")
                else:
                    text += "[%s]" % s.choice([str(i), str(i), "%d + 0" % i, "0x%x" % i])
            stack.append([t, i, p])
            self.enter(t, i, p)
            ct, bits, cp = self.child(t, i, p)
            if rng or ct.k not in "ar" or self.count(ct) == 0 or s.chance(60):
                break
            t, p = ct, cp
            self.classes.add("nested-designator")
        self.classes.add("designator")
        return text + " = ", stack


def walk(ty, path, active, out):
    """Readable leaves given the active members; path uses .% for anonymous members."""
    if ty.k == "a":
        for i in range(ty.n or 0):
            walk(ty.elem, "%s[%d]" % (path, i), active, out)
    elif ty.k == "r":
        al = ms = [m for m in ty.mems if not (m.bits is not None and m.name is None)]
        if ty.kind == "union":
            ms = [ms[active.get(path, 0)]]
        for m in ms:
            walk(m.ty, "%s.%s" % (path, m.name or "%%%d" % al.index(m)), active, out)
    else:
        out.append((re.sub(r"\.%[0-9]+", "", path), ty))


# names -> objects the pointer initialisers may refer to
PRE = r'''
static int gi[8] = {1, 2, 3, 4, 5, 6, 7, 8}; static char gs[] = "global string"; static struct { char c; struct { short h; int v[4]; } in; } gst;
static int fp0(void) { return 3; } static int fp1(void) { return 4; }
static int fk(int n) { return n; }
static volatile char *vsink;
static void dirty(int v) { char b[6000]; memset(b, v, sizeof b); vsink = b; }
static void SP(const void *p) {
  unsigned long a = (unsigned long)p;
#define IN(o, n) if (a >= (unsigned long)&(o) && a < (unsigned long)&(o) + sizeof(o)) { printf(n "+%lx\n", a - (unsigned long)&(o)); return; }
  IN(gi, "gi") IN(gs, "gs") IN(gst, "gst")
  if (p == (void *)fp0 || p == (void *)fp1) { printf("f%d\n", p == (void *)fp1); return; }
  printf("p%lx\n", a);
}
'''


def ptrval(s, sc, auto):
    n = sc.name
    if "@" in n:
        return s.choice(["fp0", "&fp1", "fp1", "0", "*fp0", "(void *)0"])
    c = ["&gi[%d]" % s.below(8), "gi + %d" % s.below(8), "gi", "&*gi", "&gst.in.v[%d]" % s.below(4), "gst.in.v + 2", "&(gi + 2)[1]", "&gi[7] - %d" % s.below(7),
         "1 ? gi + 1 : 0", "&gst.in.v[0] + %d" % s.below(4)]
    if n == "int *":
        return s.choice(c)
    d = ["gs + %d" % s.below(14), "&gs[3]", "gs", "&gst.c", "sizeof(int) == 4 ? gs : 0", "gs + 'c' - 'a'", "1 + gs + 1", "&gs[sizeof gs - 1]"]
    if n == "char *":
        return s.choice(d + ["(char *)&gi[%d] + %d" % (s.below(8), s.below(4)), "(char *)&gst.in.h + 1", "(char *)&gst + sizeof(int)", "(char *)(gi + 3) - 1"])
    return s.choice(c + d + ["&gst", "&gst.in", "&gst.in.h", "&gi", "&gs", "(void *)&gi[3]", "(char *)&gst.in.v[1] + 2"])


class C08(UnitCheck):
    id = "C08"
    rule = ("a case is one generated object type with one generated initialiser, used for a static, an automatic (on a dirtied stack) or a "
            "compound-literal object whose every member (and inferred size) is printed; non-trivial if the initialiser has designators, elided "
            "braces, strings, struct values, addresses or an inferred length")
    batches = {"quick": 1200, "thorough": 12000}
    prelude = PRELUDE + agg.PRELUDE + PRE
    slimcc_flags = ["-std=c23", "-w"]
    units_per_batch = 24

    def gen_unit(self, src, uid):
        s = src
        tg = TG(src, uid, aligned=s.chance(10), packed=s.chance(10), unions=s.chance(40), anon=True, enums=True, bitfields=s.chance(50),
                maxmem=s.choice([2, 3, 5]))
        inferred = s.chance(30)
        if s.chance(35):
            el = s.choice([I_CHAR, I_CHAR, I_UCHAR, I_SCHAR, I_INT, I_UINT, I_USHORT, tg.type(1)])
            ty = Arr(el, None if inferred else 1 + s.below(9))
            if s.chance(30):
                ty = Arr(Arr(el, 1 + s.below(6)), None if inferred else 1 + s.below(4))
        elif inferred:
            ty = Arr(tg.type(2), None)
        else:
            ty = tg.record(2)
            if s.chance(30):
                # arrays of characters are common members
                ty.mems.insert(s.below(len(ty.mems) + 1), Mem("str", Arr(s.choice([I_CHAR, I_UCHAR, I_INT, I_USHORT]), 1 + s.below(8))))
                tg.defs = [d for d in tg.defs if not d.startswith(ty.kind + " " + (ty.attr + " " if ty.attr else "") + ty.tag + " ")] + [ty.define()]
        mode = s.choice(["static", "auto", "auto", "lstatic", "cl", "fcl", "both", "loop", "tls", "fam"])
        if mode == "fam" and (ty.k != "r" or ty.kind != "struct" or ty.attr or inferred):
            mode = "both"
        auto = mode in ("auto", "cl", "loop")
        svars, sdecl = {}, []
        for r in tg.recs:
            if not r.anon and auto and s.chance(60):
                ig = IG(s, False, {}, None)
                ig.budget = 12
                v = "sv_%s" % r.tag
                sdecl.append("static %s = %s;" % (r.decl(v), ig.braced(r, "")))
                # members of a union read through another member are not compared: remember nothing about it
                if not self.has_union(r):
                    svars[r.tag] = v
        ig = IG(s, auto, svars, ptrval)
        ig.inferred = False
        if mode == "fam":
            fm = Mem("fam", Arr(s.choice(INTS[:9] + [PTRC]), None))
            ty.mems.append(fm)
            full = Rec("struct", ty.tag, ty.mems)
            tg.defs = [d for d in tg.defs if not d.startswith("struct %s " % ty.tag)] + [full.define().replace("fam[]", "fam[]")]
            flex, ty.mems = fm, ty.mems[:-1]
            fi = IG(s, False, {}, ptrval)
            fi.inferred = False
            ft = fi.any(flex.ty, "fam")
            init = "{ %s .fam = %s }" % (" ".join(".%s = %s," % (m.name, ig.any(m.ty, ".%s" % m.name, m.bits)) for m in ig.mems(ty) if m.name) , ft)
            ig.classes |= fi.classes | {"flexible-array"}
        else:
            init = ig.any(ty, "") if mode not in ("cl", "fcl") else self.lit(ig, ty)
            if ty.k == "a" and ty.n is None:
                return None
        out = []
        o = "o%d" % uid
        walk(ty, "", ig.active, out)
        if mode == "fam":
            for j in range(flex.ty.n):
                out.append((".fam[%d]" % j, flex.ty.elem))

        def shows(n):
            r = []
            for p, sc in out[:70]:
                if sc.k == "p":
                    r.append("SP((void *)%s%s);" % (n, p))
                else:
                    r.append(agg.show(n + p, sc))
            return " ".join(r)
        dty = ty
        if inferred and ty.k == "a":
            dty = Arr(ty.elem, None)
        size = "P(sizeof %s);" % o
        glob = list(tg.defs) + sdecl
        const = s.choice(["", "", "const "])
        pre = "dirty(%s); " % s.choice(["0xa5", "0xff", "1"])
        if mode in ("static", "fam", "tls"):
            st = "static " if s.chance(60) else ""
            if mode == "tls":
                st = "static _Thread_local "
            glob.append("%s%s%s = %s;" % (st, const, dty.decl(o) if mode != "fam" else "struct %s %s" % (ty.tag, o), init))
            body = size + shows(o)
        elif mode == "lstatic":
            body = "static %s%s = %s; %s %s" % (const, dty.decl(o), init, size, shows(o))
        elif mode == "auto":
            body = "%s%s = %s; %s %s" % (const, dty.decl(o), init, size, shows(o))
        elif mode == "loop":
            body = "for (int i = 0; i < 3; i++) { %s = %s; %s %s memset((void *)&%s, 0x5a + i, sizeof %s); }" % (dty.decl(o), init, size, shows(o), o, o)
        elif mode in ("cl", "fcl"):
            tn = dty.decl("")
            pt = "typeof(%s) *%s" % (ty.decl("") if not inferred else ty.decl(""), o)
            if not init.startswith("{"):
                init = "{ %s }" % init
            if mode == "fcl":
                glob.append("static %s = &(%s)%s;" % (pt, tn, init))
                body = "P(sizeof *%s); %s" % (o, shows("(*%s)" % o))
            else:
                body = "%s = &(%s)%s; P(sizeof *%s); %s" % (pt, tn, init, o, shows("(*%s)" % o))
        else:
            glob.append("static %s = %s;" % (dty.decl(o), init))
            body = "%s = %s; P(sizeof %s == sizeof a); %s %s" % (dty.decl("a"), init, o, shows(o), shows("a"))
        code = "\n".join(glob) + "\nstatic __attribute__((noinline)) void fn%d(int k, long x, double d) {\n%s\n}" % (uid, body)
        cl = ig.classes | tg.classes | {"mode-" + mode}
        if inferred:
            cl.add("inferred-length")
        nt = bool(ig.classes & {"designator", "elided-braces", "string", "string16", "string32", "struct-valued-element", "address-constant",
                                "range-designator", "compound-literal-value"}) or inferred
        return Unit(code, pre + "fn%d(1, %s, 2.5);" % (uid, s.choice(["7", "-1", "0x123456789"])), sorted(cl), nt)

    def lit(self, ig, ty):
        if ig.strable(ty) and ig.s.chance(50):
            t = ig.string(ty)
            if t:
                return t
        return ig.braced(ty, "")

    def has_union(self, t):
        if t.k == "a":
            return self.has_union(t.elem)
        return t.k == "r" and (t.kind == "union" or any(self.has_union(m.ty) for m in t.mems))


CHECK = C08()
