"""C25: scopes and name spaces, and the symbol table behind them."""
import os
from lib.diff import UnitCheck, Unit, PRELUDE, Failure, Src
from lib import cc, build
from lib.engine import REPO

SPELL = ["a", "b", "x", "T", "_", "__", "$", "a$", "int_", "ints", "ret", "sizeo", "typede", "é", "变", "aé", "long_name_that_is_much_longer_than_any_other_name_here_", "A", "aa", "aaa", "aaaa", "x_", "_x", "Tt", "e", "L", "u8", "R", "struct_", "main_", "_a_b", "\\u00e9", "α"]


class G:
    def __init__(self, s, uid):
        self.s, self.uid = s, uid
        k = s.choice([2, 3, 4, 6, 9])
        self.pool = [w + str(uid) for w in s.sample(SPELL, k)]
        if "\\u00e9%d" % uid in self.pool and "é%d" % uid in self.pool:
            pass            # one identifier, two spellings
        if s.chance(6):
            self.pool[-1] = "l" * s.choice([63, 64, 100, 170, 180, 190, 200, 255, 256, 400, 1000]) + str(uid)
        self.scopes = [{"o": {}, "t": {}}]
        self.n = 0
        self.cls = set()
        self.depth = 0
        self.pre = []

    def key(self, n):
        return n.replace("\\u00e9", "é")

    def name(self, space="o", free=False):
        """a name of the pool; free: not declared in the innermost scope"""
        s = self.s
        c = self.pool
        if free:
            c = [n for n in c if self.key(n) not in self.scopes[-1][space]]
        return s.choice(c) if c else None

    def look(self, n, space="o"):
        for i in range(len(self.scopes) - 1, -1, -1):
            if self.key(n) in self.scopes[i][space]:
                return self.scopes[i][space][self.key(n)]
        return None

    def put(self, n, e, space="o"):
        self.scopes[-1][space][self.key(n)] = e

    def num(self):
        self.n += 1
        return self.n * 7 + self.s.below(5)

    def size(self):
        self.n += 1
        return 5 + self.n % 90

    def fresh(self):
        self.n += 1
        return "z%d_%d" % (self.uid, self.n)

    def visible(self, kinds, space="o"):
        out = []
        for n in self.pool:
            e = self.look(n, space)
            if e and e[0] in kinds:
                out.append((n, e))
        return out

    # ---- uses: statements that print what a name means here
    def use(self):
        s = self.s
        if s.chance(25):
            v = self.visible(("struct", "union", "enum"), "t")
            v = [x for x in v if x[1][1] is not None]
            if v:
                n, e = s.choice(v)
                return s.choice(["P(sizeof(%s %s));", "{ %s %s o; P(sizeof o); }", "P(sizeof(*(%s %s *)0));"]) % (e[0], n)
        v = self.visible(("int", "arr", "typ", "ityp", "enumc", "fn"))
        if not v:
            return ";"
        n, e = s.choice(v)
        k = e[0]
        if k == "int":
            return s.choice(["P(%s);", "P(%s + 1);", "P(sizeof %s);", "P((%s)-1);", "%s += 3; P(%s);".replace("%s", n).replace("%", "%%") if e[1] else "P(%s);", "P((%s) & 7);", "P(sizeof(%s)-1);",
                             "P(({ %s; }));", "P(_Generic(%s, int: 1, default: 2));"]).replace("%s", n).replace("%%", "%")
        if k == "arr":
            return s.choice(["P(sizeof %s);", "P(sizeof(%s));", "P(sizeof(%s)-1);", "P(sizeof(const char *) + sizeof %s);"]) % n
        if k == "typ":
            return s.choice(["P(sizeof(%s));", "{ %s o; P(sizeof o); }", "{ %s *o; P(sizeof *o); }", "P(sizeof(%s[2]));", "{ const %s o; P(sizeof o); }", "P(sizeof(%s *));", "{ static %s o, *p; P(sizeof *p); }"]) % n
        if k == "ityp":
            return s.choice(["P((%s)-1);", "P((%s)300);", "P(sizeof(%s)-1);", "{ %s o = -1; P(o); }", "P((%s)(70000));", "P(_Generic((%s)0, signed char: 1, unsigned char: 2, short: 3, unsigned short: 4, default: 5));",
                             "{ %s(o) = 1; P(o); }"]) % n if True else ";"
        if k == "enumc":
            return s.choice(["P(%s);", "{ char o[%s]; P(sizeof o); }", "switch (%s) { case %s: P(1); break; default: P(2); }", "{ enum { q = %s + 1 }; P(q); }", "{ static int o = %s; P(o); }"]).replace("%s", n)
        return s.choice(["P(%s(3));", "P((%s)(4));", "P((*%s)(5));", "{ int (*o)(int) = %s; P(o(1)); }"]) % n

    # ---- declarations in the innermost scope
    def decl(self, glob=False):
        s = self.s
        k = s.below(12)
        st = "static " if glob else ""
        if k >= 10:
            return self.tagdecl()
        n = self.name(free=True)
        if n is None:
            return self.tagdecl()
        old = self.look(n)
        if k < 3:
            q = s.choice(["", "", "static ", "register ", "auto int " if False else "const "]) if not glob else st
            self.put(n, ("int", q != "const "))
            return "%sint %s = %d;" % (q, n, self.num())
        if k == 3:
            # the name is in scope in its own initializer, but not in its own declarator
            self.cls.add("own initializer")
            self.put(n, ("int", True))
            return "%sint %s = sizeof %s + %d;" % (st, n, n, self.num())
        if k == 4:
            if old and old[0] in ("arr", "typ", "int", "ityp") and not (old[0] == "arr" and old[1]):
                self.cls.add("outer name in own declarator")
                self.put(n, ("arr", False))
                return "%schar %s[sizeof(%s) + %d];" % (st, n, n, self.size())
            self.put(n, ("arr", False))
            return "%schar %s[%d];" % (st, n, self.size())
        if k == 5:
            if old and old[0] == "typ" and s.chance(60):
                self.cls.add("typedef from its outer self")
                x = s.below(3)
                if x == 0:
                    self.put(n, ("typ",))
                    return "typedef %s %s[2];" % (n, n)
                self.put(n, ("arr", False))
                return "%s%s %s;" % (st, n, n)
            self.put(n, ("typ",))
            if s.chance(50):
                return "typedef char %s[%d];" % (n, self.size())
            return "typedef struct { char m[%d]; } %s;" % (self.size(), n)
        if k == 6:
            if old and old[0] == "ityp" and s.chance(60):
                self.cls.add("T T")
                self.put(n, ("int1", True))
                x = s.below(3)
                if x == 0:
                    self.put(n, ("ityp",))
                    return "typedef %s %s;" % (n, n)
                self.put(n, ("arr", False))
                return "%s%s %s = %d;" % (st, n, n, 1 + s.below(100))
            self.put(n, ("ityp",))
            return "typedef %s %s;" % (s.choice(["signed char", "unsigned char", "short", "unsigned short"]), n)
        if k == 7:
            # enumerators, one of them built on what the name meant before
            if old and old[0] == "enumc" and s.chance(60):
                self.cls.add("enumerator from its outer self")
                self.put(n, ("enumc",))
                return "enum { %s = %s + 1 };" % (n, n)
            m = self.name(free=True)
            self.put(n, ("enumc",))
            if m and self.key(m) != self.key(n):
                self.put(m, ("enumc",))
                return "enum { %s = %d, %s = %s + 2 };" % (n, 1 + s.below(60), m, n)
            return "enum { %s = %d };" % (n, 1 + s.below(60))
        if k == 8:
            # a declaration that may read as an expression
            t = [x for x in self.visible(("ityp", "typ")) if self.key(x[0]) != self.key(n)]
            if t:
                x, e = s.choice(t)
                self.cls.add("declaration or expression")
                self.put(n, ("arr", False))
                return s.choice(["%s(%s);", "%s *%s;", "%s((%s));", "%s (*%s);", "%s (%s)[2];"]) % (x, n)
            v = self.visible(("int",))
            if len(v) > 1:
                return "%s * %s; P(1);" % (v[0][0], v[1][0]) if not glob else ""
        if glob or s.chance(40):
            return self.tagdecl()
        if s.chance(50):
            f = self.fns and s.choice(self.fns)
            if f and self.key(f) not in self.scopes[-1]["o"]:
                self.cls.add("function declared in a block")
                self.put(f, ("fn",))
                return "int %s(int %s);" % (f, n)
        f = self.exts and s.choice(self.exts)
        if f and self.key(f) not in self.scopes[-1]["o"]:
            self.cls.add("extern in a block")
            self.put(f, ("int", True))
            return "extern int %s;" % f
        return ";"

    def tagdecl(self):
        s = self.s
        n = self.name("t", free=True)
        if n is None:
            # complete one that is only declared
            for n in self.pool:
                e = self.scopes[-1]["t"].get(self.key(n))
                if e and e[1] is None:
                    self.put(n, (e[0], 1), "t")
                    return "%s %s { char m[%d]; };" % (e[0], n, self.size())
            return self.memdecl()
        k = s.below(10)
        old = self.look(n, "t")
        if k == 0:
            kw = s.choice(["struct", "union"])
            self.put(n, (kw, None), "t")
            self.cls.add("tag declared before it is defined")
            p = self.fresh()
            if len(self.scopes) == 1:
                return "%s %s;" % (kw, n)
            self.put(n, (kw, 1), "t")
            return "%s %s; { %s %s *%s; P(1); } %s %s *%s; %s %s { char m[%d]; }; P(sizeof *%s);" % (kw, n, kw, n, p, kw, n, p, kw, n, self.size(), p)
        if k < 5:
            kw = s.choice(["struct", "struct", "union"])
            self.put(n, (kw, 1), "t")
            me, tail = "", ""
            if s.chance(40):
                self.cls.add("struct naming itself")
                me = "%s %s *p; " % (kw, n)
                if len(self.scopes) > 1:
                    tail = " P(sizeof *((%s %s *)0)->p);" % (kw, n)
            if s.chance(25):
                # what is declared inside is visible outside
                m = self.name("t", free=True)
                if m and self.key(m) != self.key(n):
                    self.put(m, ("struct", 1), "t")
                    self.cls.add("tag in a struct")
                    me += "struct %s { char q[%d]; } o; " % (m, self.size())
            if s.chance(20):
                m = self.name(free=True)
                if m:
                    self.put(m, ("enumc",))
                    self.cls.add("enumerator in a struct")
                    me += "enum { %s = %d } en; char mm[%s]; " % (m, 1 + s.below(50), m)
            return "%s %s { %schar m[%d]; };" % (kw, n, me, self.size()) + tail
        if k < 7:
            m = self.name(free=True)
            self.put(n, ("enum", 1), "t")
            if m:
                self.put(m, ("enumc",))
                return "enum %s { %s = %d };" % (n, m, 1 + s.below(60))
            return "enum %s { %s };" % (n, self.fresh())
        if k == 7 and len(self.scopes) > 1:
            self.put(n, ("struct", 1), "t")
            self.cls.add("tag in an expression")
            return s.choice(["P(sizeof(struct %s { char m[%d]; }));", "(void)(struct %s *)0; (void)sizeof(struct %%s { char m[%%d]; });".replace("%s", n).replace("%%", "%") if False else "P(sizeof(struct %s { char m[%d]; }[2]));"]) % (n, self.size())
        if k == 8 and old and old[0] == "struct" and old[1] is not None and len(self.scopes) > 1:
            # without ; after the tag it is the outer one
            p = self.fresh()
            self.cls.add("outer tag, then its own")
            self.put(n, ("struct", 1), "t")
            return "struct %s *%s; struct %s { char m[%d]; }; P(sizeof *%s == sizeof(struct %s)); P(sizeof *%s);" % (n, p, n, self.size(), p, n, p)
        return self.memdecl()

    def memdecl(self):
        """member names live apart"""
        s = self.s
        if len(self.scopes) == 1:
            return ""
        ms = s.sample(self.pool, s.range(1, min(3, len(self.pool))))
        ms = [m for i, m in enumerate(ms) if self.key(m) not in [self.key(x) for x in ms[:i]]]
        v = self.fresh()
        self.cls.add("members")
        t, vals = "", []
        for m in ms:
            e = self.look(m)
            if e and e[0] == "ityp" and s.chance(50):
                t += "%s %s; " % (m, m)
            elif s.chance(30):
                t += "struct { int %s; }; " % m
            else:
                t += "int %s; " % m
            vals.append(".%s = %d" % (m, 1 + s.below(100)))
        tag = ""
        n = self.name("t", free=True)
        if n and s.chance(40):
            tag = n + " "
            self.put(n, ("struct", 1), "t")
        return "struct %s{ %s} %s = { %s }; " % (tag, t, v, ", ".join(vals)) + " ".join("P(%s%s%s);" % (v, ".", m) if s.chance(50) else "P((&%s)->%s);" % (v, m) for m in ms)

    # ---- statements
    def open(self):
        self.scopes.append({"o": {}, "t": {}})

    def close(self):
        self.scopes.pop()

    def stmts(self, n):
        out = []
        for _ in range(n):
            k = self.s.below(10)
            if k < 4:
                out.append(self.decl())
                if self.s.chance(60):
                    out.append(self.use())
            elif k < 7 or self.depth > self.maxdepth:
                out.append(self.use())
            else:
                out.append(self.compound())
        return "\n".join(out)

    def body(self):
        """a substatement: itself a block"""
        self.depth += 1
        self.open()
        t = self.stmts(self.s.range(1, 4))
        self.close()
        self.depth -= 1
        return "{ " + t + " }"

    def compound(self):
        s = self.s
        k = s.below(14)
        once = self.fresh()
        if k < 4:
            return self.body()
        if k < 7:
            # for: the declaration, then a body of its own scope
            self.open()
            n = self.name(free=True)
            self.put(n, ("int", True))
            self.cls.add("for declaration")
            d = "int %s = %d" % (n, self.num())
            if s.chance(30):
                m = self.name(free=True)
                if m:
                    self.put(m, ("int", True))
                    d += ", %s = %s + 1" % (m, n)
            b = self.body() if s.chance(80) else "{ " + self.use() + " }"
            self.close()
            return "{ int %s = 1; for (%s; %s; %s = 0) %s }" % (once, d, once, once, b)
        if k == 7:
            # what the controlling expression declares ends with the statement
            self.open()
            n, m = self.name("t"), self.name()
            self.put(m, ("enumc",))
            self.cls.add("names declared in a condition")
            v = 1 + s.below(50)
            w = s.choice(["if (sizeof(enum { %s = %d })) %%s", "switch (sizeof(enum { %s = %d })) { default: %%s }"]) % (m, v)
            if w.startswith("if") and s.chance(40):
                b = self.body()
                w2 = "if (!sizeof(enum { %s = %d })) ; else %%s" % (m, v)
                t = w2 % b
            else:
                t = w % self.body()
            self.close()
            return t + " " + self.use()
        if k == 8:
            self.open()
            n = self.name()
            self.put(n, ("int", True))
            self.cls.add("declaration in a condition")
            v = self.num()
            b = self.body()
            self.close()
            f = s.below(3)
            if f == 0:
                return "IFD(int %s = %d, %s) %s" % (n, v, n, b)
            if f == 1:
                return "IFD2(int %s = %d, %s == %d) %s" % (n, v, n, v, b)
            return "SWD(int %s = %d, %s) { case %d: %s }" % (n, v, n, v, b)
        if k == 9:
            self.depth += 1
            self.open()
            t = self.stmts(s.range(1, 3))
            v = [x for x in self.visible(("int", "enumc"))]
            r = s.choice(v)[0] if v else "7"
            self.close()
            self.depth -= 1
            self.cls.add("statement expression")
            return "P(({ %s %s; }));" % (t, r)
        if k == 10:
            return "do %s while (0); %s" % (self.body(), self.use())
        if k == 11:
            l = [n for n in self.pool if self.key(n) not in self.labels]
            if l:
                n = s.choice(l)
                self.labels.add(self.key(n))
                self.cls.add("label")
                u = self.use()
                return "goto %s; P(9999); %s: %s" % (n, n, u if not u.startswith("struct") else "; " + u)
        if k == 12:
            v = self.visible(("int",))
            if v:
                n = s.choice(v)[0]
                return "if (%s) %s else { P(0); } %s" % (n, self.body(), self.use())
        if k == 13:
            # parameter names of a prototype do not leak
            self.cls.add("prototype scope")
            n, m = self.name(), self.name()
            if self.key(n) != self.key(m):
                return "{ int (*o)(int %s, char %s[sizeof %s]); P(sizeof o); } %s" % (n, m, n, self.use())
        return self.body()

    def function(self, f):
        s = self.s
        self.labels = set()
        self.depth = 0
        self.open()
        np = s.below(4)
        par, args = [], []
        knr = s.chance(10) and not any((self.look(n) or ("",))[0] in ("typ", "ityp") for n in self.pool)
        pre = ""
        if not knr and s.chance(15):
            n = self.name("t")
            if s.chance(50):
                self.put(n, ("struct", 1), "t")
                self.cls.add("tag in a parameter list")
                par.append("struct %s { char m[%d]; } *%s" % (n, self.size(), self.fresh()))
                args.append("0")
        for _ in range(np):
            n = self.name(free=True)
            if n is None:
                break
            e = self.look(n)
            v = self.visible(("int",))
            if e and e[0] == "ityp" and not knr and s.chance(60):
                self.cls.add("T T parameter")
                par.append("%s %s" % (n, n))
                self.put(n, ("arr", False))
                args.append("5")
            elif not knr and s.chance(25):
                # a type name alone, or in parentheses: a parameter without a name of function type
                par.append("char (*%s)[sizeof(%s)]" % (n, s.choice(v)[0] if v else "int"))
                self.put(n, ("arr", False))
                args.append("0")
            else:
                par.append("int %s" % n)
                self.put(n, ("int", True))
                args.append(str(self.num()))
        # parameters and the outermost block of the body are one scope
        t = self.stmts(s.range(2, 12))
        self.close()
        if knr and par:
            self.cls.add("K&R definition")
            names = [p.split(" ")[-1] for p in par]
            head = "static void %s(%s) %s;" % (f, ", ".join(names), "; ".join(s.shuffle(par)))
        else:
            head = "static void %s(%s)" % (f, ", ".join(par) or "void")
        return head + " {\n" + t + "\n}", "%s(%s);" % (f, ", ".join(args))


DRIVER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "slimcc.h"
/* carries out a history: NUL-free keys also through the string interface */
static HashMap map[3];
int main(void) {
  char op; int m, len; long val; static char hex[8200];
  while (scanf(" %c %d %d %8199s %ld", &op, &m, &len, hex, &val) == 5) {
    char *key = malloc(len + 1);            /* its own memory, exactly as long */
    for (int i = 0; i < len; i++) { unsigned x; sscanf(hex + 2 * i, "%2x", &x); key[i] = x; }
    key[len] = 0;
    void *r = 0;
    switch (op) {
    case 'p': hashmap_put2(&map[m], key, len, (void *)val); break;
    case 'P': hashmap_put(&map[m], key, (void *)val); break;
    case 'd': hashmap_delete2(&map[m], key, len); break;
    case 'D': hashmap_delete(&map[m], key); break;
    case 'g': r = hashmap_get2(&map[m], key, len); printf("%ld\n", (long)r); break;
    case 'G': r = hashmap_get(&map[m], key); printf("%ld\n", (long)r); break;
    }
    if (op != 'p' && op != 'P') free(key);
  }
  return 0;
}
"""


def fnv(b):
    h = 0xcbf29ce484222325
    for c in b:
        h = (h * 0x100000001b3 & 0xffffffffffffffff) ^ c
    return h


class C25(UnitCheck):
    id = "C25"
    technique = "property-based testing: programs of generated nested scopes that print what each name means (oracle: gcc and clang), and model-based histories on the symbol table (oracle: a list)"
    rule = ("a case is one unit of file-scope declarations and functions with nested scopes over a small set of names, or one history of table operations; non-trivial if a name is declared more than once, "
            "or the history has a deletion or a growth")
    batches = {"quick": 500, "thorough": 9000}
    units_per_batch = 24
    gcc_flags = cc.GCC_FLAGS
    prelude = PRELUDE + r'''
#ifdef __slimcc__
#define IFD(d, c) if (d)
#define IFD2(d, c) if (d; c)
#define SWD(d, c) switch (d)
#else
#define IFD(d, c) for (int once_ = 1; once_; once_ = 0) for (d; once_ && (c); once_ = 0)
#define IFD2(d, c) for (int once_ = 1; once_; once_ = 0) for (d; once_ && (c); once_ = 0)
#define SWD(d, c) for (int once_ = 1; once_; once_ = 0) for (d; once_; once_ = 0) switch (c)
#endif
'''
    slimcc_flags = ["-std=c23", "-w", "-fenable-universal-char"]

    def gen_unit(self, src, uid):
        s = src
        g = G(s, uid)
        g.maxdepth = s.choice([2, 3, 4, 6])
        g.exts, g.fns, g.labels = [], [], set()
        code = []
        # names with external linkage, reachable from any block
        for n in g.pool:
            if g.key(n) in g.scopes[0]["o"]:
                continue
            if s.chance(20):
                code.append("int %s = %d;" % (n, g.num()))
                g.put(n, ("int", True))
                g.exts.append(n)
            elif s.chance(12):
                code.append("int %s(int p) { return p * %d; }" % (n, 3 + g.size()))
                g.put(n, ("fn",))
                g.fns.append(n)
        for _ in range(s.range(0, 5)):
            code.append(g.decl(glob=True))
        call = ""
        for i in range(s.weighted([(60, 1), (25, 2), (15, 3)])):
            t, c = g.function("fu%d_%d" % (uid, i))
            code.append(t)
            call += c
            if s.chance(40):
                code.append(g.decl(glob=True))
        if s.chance(3):
            # many names at once
            k = s.choice([100, 700, 3000])
            g.cls.add("many names")
            pick = [s.below(k) for _ in range(10)]
            code.append("static void many%d(void) { long t = 0;\n%s\n{ %s %s }\n%s }" % (
                uid, " ".join("int %s%d = %d;" % ("xy"[i % 2] * (1 + i % 5), i, i * 3) for i in range(k)),
                " ".join("int %s%d = %d;" % ("xy"[i % 2] * (1 + i % 5), i, i * 5) for i in pick if pick.count(i) == 1), " ".join("t += %s%d;" % ("xy"[i % 2] * (1 + i % 5), i) for i in pick),
                "P(t); P(%s);" % " + ".join("%s%d" % ("xy"[i % 2] * (1 + i % 5), i) for i in pick)))
            call += "many%d();" % uid
        if s.chance(2):
            k = s.choice([30, 120])
            n = g.pool[0]
            g.cls.add("deep nesting")
            code.append("static void deep%d(int v) {%s P(%s); %s}" % (uid, "".join("{ int %s = %d; P(%s); " % (n, i, n) for i in range(k)), n, "".join("} P(%s); " % n if i < k - 1 else "}" for i in range(k))))
            call += "deep%d(1);" % uid
        return Unit("\n".join(x for x in code if x), call, sorted(g.cls), len(g.scopes) == 1 and "{" in code[-1] + "{")

    # ---- the table
    MARK = 999983

    def setup(self, ctx):
        super().setup(ctx)
        d = os.path.join(ctx.base, "c25")
        build._copy(d)
        cc.write(d + "/driver.c", DRIVER)
        objs, ok = [], True
        ps = []
        import subprocess
        for f in build.sources():
            o = d + "/" + f + ".o"
            objs.append(o)
            ps.append(subprocess.Popen(["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-Dmain=slimcc_main", "-c", "-o", o, d + "/" + f + ".c"], stderr=subprocess.PIPE))
        ps.append(subprocess.Popen(["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-I" + d, "-c", "-o", d + "/driver.o", d + "/driver.c"], stderr=subprocess.PIPE))
        for p in ps:
            p.communicate()
            ok &= p.returncode == 0
        self.table = d + "/table"
        if not ok or cc.run(["gcc", "-fsanitize=address,undefined", "-o", self.table, d + "/driver.o", *objs], timeout=120).rc:
            self.table = None       # the interface is another one: the table is then judged by the programs alone

    def history(self, s):
        """[(op, map, key, value)] and what the gets have to yield"""
        k = s.choice([2, 5, 12, 30, 100, 400])
        kind = s.below(4)
        uni, seen = [], set()
        low = s.bits(16)
        while len(uni) < k:
            if kind == 0 and k <= 100:
                # keys that share their first buckets
                b = bytes(97 + s.below(26) for _ in range(3))
                w = 0
                while fnv(b) & 63 != low & 63 or b in seen:
                    w += 1
                    b = (w * 7919 + len(uni) * 104729 + low).to_bytes(4, "big")
            elif kind == 1:
                b = b"key %d" % len(uni)
            elif kind == 2:
                b = b"a" * len(uni)            # prefixes of one another, one of them empty
            else:
                b = bytes(s.below(256) for _ in range(s.range(1, 9)))
            if b in seen:
                b += len(uni).to_bytes(2, "big")
            if b in seen:
                continue
            seen.add(b)
            uni.append(b)
        ops, exp, model = [], [], [{}, {}, {}]
        maps = s.choice([1, 1, 3])
        style = s.choice([(5, 2, 3), (4, 4, 2), (8, 1, 1), (1, 1, 1)])
        n = s.choice([10, 40, 150, 600, 2500])
        dels = grow = 0

        def get(m, b):
            up = 0 not in b and s.chance(30)
            ops.append(("G" if up else "g", m, b, 0))
            exp.append(model[m].get(b, 0))
        for i in range(n):
            m = s.below(maps)
            b = s.choice(uni)
            x = s.below(sum(style))
            up = 0 not in b and s.chance(30)
            if x < style[0]:
                v = 0 if s.chance(3) else 1 + s.bits(40)
                ops.append(("P" if up else "p", m, b, v))
                model[m][b] = v
                grow += len(model[m]) > 11
            elif x < style[0] + style[1]:
                ops.append(("D" if up else "d", m, b, 0))
                dels += b in model[m]
                model[m].pop(b, None)
            else:
                get(m, b)
        for m in range(maps):
            for b in uni:
                get(m, b)
        return ops, exp, dels or grow

    def judge_table(self, ctx, ops, exp):
        text = "".join("%s %d %d %s %d\n" % (o, m, len(b), b.hex() or "-", v) for o, m, b, v in ops)
        r = cc.run([self.table], stdin=text.encode(), timeout=60, env=dict(build.ENV, ASAN_OPTIONS="detect_leaks=0"))
        got = [int(x) for x in r.out.split()]
        if r.rc == 0 and got == exp:
            return None
        i = next((i for i in range(len(exp)) if i >= len(got) or got[i] != exp[i]), len(exp))
        what = "symbol table: %s" % ("the history ends with status %s: %s" % (r.rc, r.err[-300:]) if r.rc else "look-up %d of the history yields %s, want %s" % (i, got[i] if i < len(got) else None, exp[i]))
        return Failure(what, {"history.txt": text}, expected=str(exp[i]) if i < len(exp) else "", actual=str(got[i] if i < len(got) else None), cmd="the table operations of history.txt, in order",
                       extra={"ops": [[o, m, b.hex(), v] for o, m, b, v in ops], "exp": exp})

    def run_batch(self, ctx, idx, src, stats):
        if idx % 5 or not self.table:
            return super().run_batch(ctx, idx, src, stats)
        for _ in range(4):
            s = Src(src.bits(62))
            ops, exp, nt = self.history(s)
            stats.case(repr(ops), bool(nt), ["table history"])
            f = self.judge_table(ctx, ops, exp)
            if f:
                f.choices = [self.MARK] + s.log
                stats.failures.append(f)

    def recheck(self, ctx, choices):
        if not choices or choices[0] != self.MARK:
            return super().recheck(ctx, choices)
        s = Src(choices=list(choices[1:]))
        ops, exp, nt = self.history(s)
        f = self.judge_table(ctx, ops, exp)
        if f:
            f.choices = [self.MARK] + s.log
        return f

    def replay_record(self, ctx, rec):
        e = rec.get("extra") or {}
        if "ops" in e:
            return self.judge_table(ctx, [(o, m, bytes.fromhex(b), v) for o, m, b, v in e["ops"]], e["exp"]) if self.table else None
        return super().replay_record(ctx, rec)


CHECK = C25()
