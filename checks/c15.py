"""C15: conditional inclusion, includes and other directives."""
import re
from lib.pp import PPCheck

DIRS = ["", "i1", "i2", "s1", "s2", "d1", "sub", "i1/sub"]
PRE = "pre_token\n#define PRE 2\n#define PREF(x, ...) (x + PRE)\n#ifndef ONCE_PRE\n#define ONCE_PRE\npre_inner\n#endif\n"


class C15(PPCheck):
    id = "C15"
    rule = "a case is one generated file with its headers; non-trivial if at least one controlling expression or guarded or repeated include decides which lines are kept"
    batches = {"quick": 700, "thorough": 15000}
    modes = [(["-std=c23"], ["-std=c2x"])]
    common = ["-idirafter", "d1", "-isystem", "s1", "-Ii1", "-isystem", "s2", "-I", "i2", "-DCMD=3", "-DCMDF(x)=(x+1)",
             "-DCMDE", "-DCMDX=4", "-UCMDX", "-DCMDQ=\"i\"", "-D", "CMD0=", "-include", "pre.h"]

    base_files = {"pre.h": PRE}

    def gen_unit(self, s, uid):
        self.u, self.cls = uid, set()
        self.files = {"pre.h": PRE, "i1/empty.h": "", "d1/after.h": "d1_after\n", "s1/sys.h": "s1_sys\n", "s2/sys.h": "s2_sys\n",
                      "i2/inc.h": "i2_inc\n", "i1/sub/x": "", "i2/x": "", "s1/x": "", "s2/x": "", "d1/x": "", "sub/x": ""}
        self.vars = ["A%d" % uid, "B%d" % uid, "C%d" % uid, "D%d" % uid]
        self.names = ["h%d_%d.h" % (i, uid) for i in range(s.range(1, 4))]
        self.where = {}
        for i, n in enumerate(self.names):
            self.where[n] = s.sample(DIRS, s.choice([1, 1, 2, 3]))
        for i, n in enumerate(self.names):
            for d in self.where[n]:
                self.files[(d + "/" if d else "") + n] = self.header(s, i, d)
        out = []
        for _ in range(s.range(2, 8)):
            out.append(self.item(s, -1, 3, ""))
        for v in self.vars:
            out.append("#undef " + v)
        for n in self.names:
            for g in ("G", "S1", "S2"):
                out.append("#undef %s_%s" % (g, re.sub(r"\W", "_", n)))
        nt = bool(self.cls & {"if", "guard", "once", "include_next", "reinclude"})
        return "\n".join(out), self.files, nt, sorted(self.cls)

    # ---- headers
    def header(self, s, i, d):
        n = self.names[i]
        g = "G_" + re.sub(r"\W", "_", n)
        s1, s2 = g.replace("G_", "S1_"), g.replace("G_", "S2_")
        body = "\n".join(self.item(s, i, 2, d) for _ in range(s.range(0, 3)))
        body = "in_%s_%s __FILE__ __LINE__\n" % (d.replace("/", "_") or "top", n[:-2]) + body
        k = s.below(16)
        nl = s.choice(["\n", "\n", "\n", ""])
        if k < 2:
            return body + "\n"
        self.cls.add("guard")
        if k < 5:
            pre = s.choice(["", "// c\n", "/* c\n */\n\n"])
            return "%s#ifndef %s\n#define %s%s\n%s\n#endif%s%s" % (pre, g, g, s.choice(["", " 1"]), body, s.choice(["", " // e", " /* e */"]), nl)
        if k == 5:
            return "#if !defined(%s)\n#define %s\n%s\n#endif%s" % (g, g, body, nl)
        if k == 6:      # tokens after
            return "#ifndef %s\n#define %s\n%s\n#endif\nafter_%s%s" % (g, g, body, n[:-2], nl)
        if k == 7:      # tokens before
            return "before_%s\n#ifndef %s\n#define %s\n%s\n#endif%s" % (n[:-2], g, g, body, nl)
        if k == 8:      # other branch
            return "#ifndef %s\n#define %s\n%s\n%s\nother_%s\n#endif%s" % (
                g, g, body, s.choice(["#else", "#elif 1", "#elifdef " + g, "#elifndef Z9", "#elif CMD == 3"]), n[:-2], nl)
        if k == 9:      # guard not defined inside, or undefined again
            return "#ifndef %s\n%s%s\n%s\n#endif%s" % (g, s.choice(["", "#define %s\n" % g]), body, s.choice(["", "#undef %s" % g]), nl)
        if k == 10:
            self.cls.add("once")
            return s.choice(["#pragma once\n%s\n", "%s\n#pragma once\n", "# pragma once // c\n%s\n", "#if CMD == 3\n#pragma once\n#endif\n%s\n",
                             "#if 0\n#pragma once\n#endif\n%s\n"]) % body
        if k == 11:     # two conditionals in a row
            return "#ifndef %s\n#define %s\n%s\n#endif\n#ifndef %s\n#define %s\nsecond\n#endif%s" % (g, g, body, s1, s1, nl)
        if k == 12:     # reads itself
            self.cls.add("self")
            return ("#ifndef %s\n#define %s\nself1\n#include %s\nafter_self1\n#elif !defined %s\n#define %s\nself2\n#include %s\n#else\nself3\n%s\n#endif%s"
                    % (s1, s1, s.choice(['"%s"' % n, "__FILE__"]) if s.chance(50) else '"%s"' % n, s2, s2, '"%s"' % n, body, nl))
        if k == 13:     # next
            self.cls.add("include_next")
            later = DIRS.index(d)
            have = [x for x in self.where[n] if x in ("i1", "i2", "s1", "s2", "d1")]
            order = ["i1", "i2", "s1", "s2", "d1"]
            nxt = [x for x in have if d in order and order.index(x) > order.index(d)]
            if nxt:
                return "#ifndef %s_%s\n#define %s_%s\n%s\n#include_next <%s>\nnx_end\n#undef %s_%s\n#endif%s" % (
                    g, d, g, d, body, n, g, d, nl)
            return body + "\n"
        if k == 14:     # guard with a splice, odd spacing
            return "#  ifndef /* x */ %s\n # /*y*/ define %s \\\n  1\n%s\n#\n#endif%s" % (g, g, body, nl)
        return "#ifndef %s\n#define %s\n%s\n#endif\n#if 0\nx\n#endif%s" % (g, g, body, nl)

    # ---- one element of a file; level is the header index (includes only go to later headers)
    def item(self, s, level, depth, d):
        k = s.below(20)
        if k < 5:
            return self.cond(s, level, depth, d)
        if k < 9:
            inc = self.include(s, level, d)
            if inc:
                return inc
        if k < 12:
            v = s.choice(self.vars)
            j = s.below(6)
            if j == 0:
                return "#undef " + v
            if j == 1:
                return "#undef %s\n#define %s(x) (x %s %s)" % (v, v, s.choice(["+", "-", "|"]), s.choice(["1", "2", "x"]))
            return "#undef %s\n#define %s %s" % (v, v, s.choice(["0", "1", "2", "", "-1", "(3)", "CMD", "0x10u", "'a'"] + [w for w in self.vars if w > v]))
        if k == 12:
            self.cls.add("has_include")
            q = self.hasarg(s, level)
            return "#if %s__has_include(%s)\nyes%d\n#else\nno%d\n#endif" % (s.choice(["", "!", "1 && "]), q, s.below(9), s.below(9))
        if k == 13:
            return s.choice(["__FILE__", "__LINE__ CMD CMDF(2) CMDE CMDX CMDQ CMD0 ;", "PRE PREF(1) PREF(2,3)", "__BASE_FILE__", "#", "# /* null */", "#\n if NDIR", "# /* null */\n define NDIR", "#\n else\n#\n endif", "#  \n include NDIR", 
                             "#\n#", "/* a\n b */ __LINE__"])
        if k == 14:
            return "%s %s(1)" % (s.choice(self.vars), s.choice(self.vars)) if s.chance(30) else "#ifdef %s\n%s\n#endif" % (s.choice(self.vars), "d_" + s.choice(self.vars))
        if k == 15 and level < 0:
            return "#warning w%d it's\nw" % s.below(9)
        if k == 16:
            return "__COUNTER__" if s.chance(30) else "t%d" % s.below(20)
        return "t%d %s" % (s.below(20), s.choice(self.vars) if s.chance(20) else "")

    def include(self, s, level, d):
        cand = self.names[level + 1:]
        k = s.below(12)
        if not cand or k == 0:
            return s.choice(["#include <sys.h>", '#include "sys.h"', "#include <after.h>", "#include <inc.h>", 
                             "#include CMDINC", "#include <empty.h>"]).replace("CMDINC", "<inc.h>")
        n = s.choice(cand)
        spell = []
        w = self.where[n]
        for x in w:
            if x in ("i1", "i2", "s1", "s2", "d1"):
                spell += ["<%s>" % n, '"%s"' % n]
            elif x == "i1/sub":
                spell += ["<sub/%s>" % n]
            elif x == "sub":
                if d in ("",):
                    spell += ['"sub/%s"' % n]
                elif d == "sub":
                    spell += ['"%s"' % n]
                else:
                    spell += ['"%s/sub/%s"' % ("/".join([".."] * (d.count("/") + 1)), n)]
            elif x == "":
                spell += ['"%s"' % n] if d == "" else ['"%s%s"' % ("../" * (d.count("/") + 1), n)]
        if s.chance(8) and d in ("i1", "i2", "s1", "s2"):
            spell.append('"../i1/%s"' % n) if "i1" in w else None
        q = s.choice(spell)
        j = s.below(8)
        self.cls.add("include")
        rep = s.choice([1, 1, 2, 2])
        if rep == 2:
            self.cls.add("reinclude")
        if j == 0:
            v = "INC%d" % self.u
            self.cls.add("computed")
            return "#define %s %s\n%s#undef %s" % (v, q, ("#include %s\n" % v) * rep, v)
        if j == 1:
            v = "INC%d" % self.u
            self.cls.add("computed")
            if q[0] == "<":
                return "#define %s(x) <x>\n%s#undef %s" % (v, ("#include %s(%s)\n" % (v, q[1:-1])) * rep, v) if "h%d" % 0 and not any(w in q for w in self.vars) else "t"
            return "#define S_%d(x) #x\n#define %s(x) S_%d(x)\n%s#undef %s\n#undef S_%d" % (self.u, v, self.u, ("#include %s(%s)\n" % (v, q[1:-1])) * rep, v, self.u)
        return "\n".join("#%sinclude%s%s%s" % (s.choice(["", "", " ", "/**/"]), s.choice([" ", " ", "  ", "/**/", ""]), q, s.choice(["", "", " ", " // c", " /* c */"])) for _ in range(rep))

    def hasarg(self, s, level):
        k = s.below(6)
        if k < 3:
            n = s.choice(self.names)
            return s.choice(["<%s>", '"%s"', '"sub/%s"', "<sub/%s>", '"../%s"']) % n
        return s.choice(["<nope.h>", '"nope.h"', "<sys.h>", "<empty.h>", '"i1/empty.h"', "<i1/empty.h>", "<after.h>"])

    # ---- conditionals
    def cond(self, s, level, depth, d):
        self.cls.add("if")
        def body():
            if depth <= 0:
                return "b%d" % s.below(30)
            return "\n".join(self.item(s, level, depth - 1, d) for _ in range(s.below(3))) or "b%d" % s.below(30)

        def junk():     # only good in a group that is never read
            return s.choice(["it's", "\"unterminated", "#foo bar", "#error no", "#include \"nowhere.h\"", "#if garbage ( \n#endif", "#ifdef\n#endif",
                             "'", "#define", "#undef 3", "/* c */ # if 0\n# else\n# endif", "@ `", "#line x", "#if 1/0\n#elif )(\n#else\n#endif", "#elifxx", "#pragma once", "#embed"])
        def head(neg=False):
            k = s.below(8)
            if k == 0:
                return "#%sifdef %s" % (s.choice(["", " "]), s.choice(self.vars + ["CMD", "NOPE"]))
            if k == 1:
                return "#ifndef %s" % s.choice(self.vars + ["CMD", "NOPE"])
            return "#if%s" % self.par(s)
        out = [head()]
        k = s.below(8)
        if k == 0:      # a dead group with junk
            out = [s.choice(["#if 0", "#ifdef NOPE", "#ifndef CMD"])]
            out += [junk() for _ in range(s.range(1, 3))]
        else:
            out.append(body())
        taken = k != 0 and out[0] in ("#if 1",)
        for _ in range(s.choice([0, 0, 1, 1, 2, 3])):
            j = s.below(6)
            if j == 0:
                out.append("#elifdef %s" % s.choice(self.vars + ["CMD", "NOPE"]))
            elif j == 1:
                out.append("#elifndef %s" % s.choice(self.vars + ["CMD", "NOPE"]))
            else:
                out.append("#elif%s" % self.par(s))
            self.cls.add("elif")
            out.append(body())
        if s.chance(50):
            out.append(s.choice(["#else", "# else // c", "#else /* c */"]))
            out.append(body())
        out.append(s.choice(["#endif", "#endif", " # endif // c", "#endif /* c\n */"]))
        if s.chance(10):
            out = ["#if 1"] + out[1:2] + ["#elif 1/0 ) junk (", "x"] + ["#else", "it's", "#endif"]
        if s.chance(8):
            out = ["#if 0"] + ["#if 1", "#elif", "#else junk", "#endif junk", "y"] + ["#endif"]
        return "\n".join(out)

    def par(self, s):
        e = self.expr(s, s.choice([0, 1, 1, 2, 2, 3]))
        if s.chance(12):
            e = e.replace(" ", " \\\n ", 1) if " " in e else e
        return s.choice([" ", " ", "  ", "\t", "/**/"]) + e

    def expr(self, s, n):
        if n <= 0:
            k = s.below(14)
            if k < 3:
                return s.choice(["0", "1", "2", "3", "0x1f", "010", "0b11", "1'000", "7u", "4ll", "18446744073709551615u", "9223372036854775807", "0xffffffffffffffffull"])
            if k < 6:
                v = s.choice(self.vars)
                return s.choice(["defined(%s)", "defined %s", "!defined(%s)", "defined ( %s )"]) % v
            if k < 8:
                # a macro use must stay an operand: parenthesise, avoid empty ones
                v = s.choice(self.vars)
                return "(%s + 0)" % v
            if k == 8:
                return s.choice(["undefd", "true", "false", "if", "CMD", "CMDF(3)", "__cplusplus", "é"])
            if k == 9:
                return s.choice(["'a'", "'\\0'", "'\\xff'", "L'\\x41'", "'\\\\'", "u'z'", "U'\\''"])
            if k == 10:
                return "__has_include(%s)" % self.hasarg(s, 0)
            if k == 11:
                return s.choice(["CMD", "PRE", "defined CMDE", "defined(CMDX)", "CMDF(PRE)", "(__LINE__ > 0)", "(__COUNTER__ >= 0)", "__STDC__", "(__STDC_VERSION__ > 201710L)"])
            return s.choice(["1", "0", "2"])
        k = s.below(10)
        a, b = self.expr(s, n - 1), self.expr(s, n - 1)
        if k < 5:
            op = s.choice(["&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "&", "|", "^"])
            return "(%s) %s (%s)" % (a, op, b) if s.chance(60) else "%s %s %s" % (a, op, b)
        if k == 5:
            return "%s%s(%s)" % (s.choice(["!", "-", "~", "+", "!!", "- -"]), "", a)
        if k == 6:
            return "(%s) ? %s : %s" % (a, b, self.expr(s, n - 1))
        if k == 7:
            return "%s %s" % (s.choice(["0 && (1 / 0) ||", "1 || (1 % 0) &&"]), a)
        if k == 8:
            return "((%s) %s %s)" % (a, s.choice(["<<", ">>", "/", "%"]), s.choice(["1", "2", "3", "31"]))
        return "(%s) - (%s) < 0" % (a, b)


CHECK = C15()
