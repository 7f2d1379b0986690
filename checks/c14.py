"""C14: macro expansion."""
import re

from lib.pp import PPCheck

PUN = ["+", "-", "*", "/", "<", ">", "==", ";", ".", "->", "&&", "[", "]", "{", "}", "=", "!", "?", "++", "--", "|", "^", "%", "&"]
IDS = ["x", "y", "z1", "foo", "if", "int", "é"]


class C14(PPCheck):
    id = "C14"
    rule = "a case is one generated set of macro definitions with uses; non-trivial if a function-like macro or a ## or # operator takes part and there are at least two macros"
    batches = {"quick": 900, "thorough": 20000}

    def gen_unit(self, s, uid):
        self.u = uid
        self.unit_mode = s.below(2)
        self.prag = s.chance(25)      # pragma operators (not with #__VA_OPT__, whose result is expanded before it is spelled)
        n = s.range(1, 6)
        self.macros = {}
        names = ["M%d_%d" % (i, uid) for i in range(n)]
        lines, cls = [], set()
        for nm in names:
            lines.append(self.define(s, nm, names, cls))
        for _ in range(s.range(1, 5)):
            k = s.below(12)
            if k == 0:
                nm = s.choice(names)
                lines.append("#undef %s" % nm)
                self.macros.pop(nm, None)
                cls.add("undef")
                if s.chance(60):
                    lines.append(self.define(s, nm, names, cls))
            elif k == 1:
                nm = s.choice(names)
                lines.append("#undef %s" % nm)
                lines.append(self.define(s, nm, names, cls))
            elif k == 2:
                nm = s.choice(names)
                lines.append("#ifdef %s\ndefined %s\n#endif\n#if defined(%s) && defined %s\nboth\n#endif" % (nm, s.choice(names), s.choice(names), s.choice(names)))
            else:
                lines.append(self.use(s, names, s.range(1, 4), True) + s.choice(["", " ;", " // c", ""]))
        if s.chance(12):
            lines.append(self.tail(s, uid, names, cls))
        for nm in names:
            lines.append("#undef %s" % nm)
        return "\n".join(lines), {}, n >= 2 and bool(cls & {"func", "paste", "string"}), sorted(cls)

    # ---- definitions
    def define(self, s, nm, names, cls):
        k = s.below(10)
        if k < 4:
            body = self.body(s, names, [], None, False, cls)
            self.macros[nm] = None
            sp = " " if body and not body.startswith(" ") else ""
            return "%s#%sdefine %s%s%s" % (s.choice(["", "", " ", "/**/"]), s.choice(["", "", " ", "\t"]), nm, sp, body)
        cls.add("func")
        np = s.choice([0, 1, 1, 2, 2, 3])
        params = ["a", "b", "c"][:np]
        if s.chance(8):
            params = [p + "é" for p in params]
        var, plist = None, list(params)
        if s.chance(35):
            cls.add("variadic")
            if s.chance(20):
                var = "r"
                plist.append("r...")
            else:
                var = "__VA_ARGS__"
                plist.append("...")
        self.macros[nm] = (np, var is not None)
        body = self.body(s, names, params, var, True, cls)
        sep = s.choice([",", ", ", " , ", "/*,*/,"])
        if s.chance(12):
            return self.multiline(s, nm, sep.join(plist), body, cls)
        return "#define %s(%s%s%s)%s%s" % (nm, s.choice(["", " "]), sep.join(plist), s.choice(["", " "]), s.choice([" ", " ", "", "  "]), body)

    def multiline(self, s, nm, plist, body, cls):
        """slimcc's #def ... #enddef: a body that spans lines means what the joined line means."""
        cls.add("def")
        joined = body.replace("\\\n", " ")
        parts, out = joined.split(" "), ""
        q = False                # never break inside a literal or in front of a #
        for i, w in enumerate(parts):
            if i:
                # (nor in front of a parameter that may be empty: the white space of "#" differs then)
                out += "\n" if not q and not w.startswith("#") and not re.match(r"[a-cr]\w*\b|__VA", w) and s.chance(35) else " "
            out += w
            q ^= len(re.findall(r"""(?<!\\)["']""", w)) % 2 == 1
        return "#ifdef __slimcc__\n#def %s(%s)\n%s\n%s#enddef\n#else\n#define %s(%s) %s\n#endif" % (
            nm, plist, out, s.choice(["", " ", "/**/"]), nm, plist, joined)

    def tail(self, s, uid, names, cls):
        """__VA_TAIL__: written for slimcc, and as a chain of macros for the references."""
        cls.update(("func", "va_tail"))
        T = ["T%d_%d" % (i, uid) for i in range(s.choice([1, 1, 2]))]
        DEP = 12      # an argument may expand to two
        sl, ref, npar = [], [], s.choice([1, 1, 2])
        ps = ["a", "b"][:npar]
        other = ["k", "q", "+", "1", ";", "[", "]"]
        for i, t in enumerate(T):
            to = s.below(len(T))
            own = to == i and s.chance(60)
            parts = []
            for _ in range(s.range(1, 4)):
                k = s.below(6)
                parts.append(s.choice(ps) if k < 3 else "#" + s.choice(ps) if k == 3 else s.choice(other) if k == 4 else "(%s %s)" % (s.choice(ps), s.choice(other)))
            at = s.below(len(parts) + 1)
            form = s.below(4)
            def build(call, opt):
                if form == 0:
                    c = call
                elif form == 1:
                    c = "__VA_OPT__(, %s)" % opt
                elif form == 2:
                    c = "{ %s }" % call
                else:
                    c = "__VA_OPT__(<) %s __VA_OPT__(>)" % call
                return " ".join(parts[:at] + [c] + parts[at:])
            tt = "__VA_TAIL__(%s)" % ("" if own else T[to])
            sl.append("#define %s(%s, ...) %s" % (t, ", ".join(ps), build(tt, tt)))
            for d in range(DEP):
                nx = "%s_%d(__VA_ARGS__)" % (T[to], d + 1)
                ref.append("#define %s%s(%s, ...) %s" % (t, "_%d" % d if d else "", ", ".join(ps), build("__VA_OPT__(%s)" % nx, nx)))
        pre = ["#define OA_%d oa z" % uid, "#define OE_%d" % uid, "#define OC_%d oc, od" % uid, "#define FN_%d(x) [x]" % uid]
        use = []
        for _ in range(s.range(1, 3)):
            args = []
            for _ in range(npar * s.range(1, 5)):
                k = s.below(10)
                args.append("x%d" % s.below(9) if k < 4 else str(s.below(50)) if k == 4 else "OA_%d" % uid if k == 5 else "(p, q)" if k == 6 else
                            "FN_%d(%s)" % (uid, s.choice(["w", "OA_%d" % uid, "1, 2"[:1]])) if k == 7 else s.choice(["OC_%d" % uid if npar == 1 else "u v", "OE_%d" % uid]) if k == 8 else s.choice(["", "\"s\"", "-x"]))
            if npar == 1 and s.chance(20):
                args = args[:1]
            use.append("%s(%s)" % (s.choice(T), s.choice([", ", ","]).join(args)))
        return "\n".join(pre + ["#ifdef __slimcc__"] + sl + ["#else"] + ref + ["#endif"] + use)

    def atom(self, s, names, params, var):
        if self.prag and s.chance(6):
            return s.choice(["_Pragma(\"p q\")", "_Pragma(\"a \\\"b\\\" c\")", "_Pragma ( \"x\" )"])
        k = s.below(10)
        if params and k < 4:
            return s.choice(params)
        if var and k == 4:
            return var
        if k < 6:
            return s.choice(names)
        if k == 6:
            return s.choice(IDS)
        if k == 7:
            return s.choice(["1", "23", "0x4", "1.5", "2e", "7u", ".5"])
        if k == 8:
            return s.choice(PUN)
        return s.choice(["'c'", "\"s\"", "\"a\\n\\\"\"", "L\"w\"", "'\\''", ",", "u8\"q\""])

    def body(self, s, names, params, var, func, cls):
        out = []
        for _ in range(s.choice([0, 1, 1, 2, 2, 3, 4, 6])):
            k = s.below(16)
            if k == 0 and func and (params or var):
                cls.add("string")
                out.append("#%s%s" % (s.choice(["", " "]), s.choice(params + ([var] if var else []))))
            elif k in (1, 2):
                cls.add("paste")
                ops = [self.pasteable(s, params, var) for _ in range(s.choice([2, 2, 2, 3]))]
                out.append(s.choice(["##", " ## ", "## ", " ##"]).join(ops))
            elif k == 3 and var and var == "__VA_ARGS__" and not self.prag:
                cls.add("va_opt")
                inner = self.body2(s, names, params, var, cls)
                t = "__VA_OPT__(%s)" % inner
                j = s.below(8)
                if j == 0:
                    t = "x ## " + t
                elif j == 1:
                    t = t + " ## y"
                elif j == 2 and not self.prag:
                    t = "#" + t
                elif j == 3 and params:
                    t = params[0] + " ## " + t
                out.append(t)
            elif k == 4 and var:
                cls.add("gnu_comma")
                out.append(s.choice([", ## %s", ",##%s", "f(x, ## %s)", "x , ##%s y"]) % var)
            elif k in (5, 6, 7):
                out.append(self.call(s, names, params, var))
            elif k == 8:
                out.append("(%s)" % self.atom(s, names, params, var))
            elif k == 9:
                out.append(s.choice(["(", ")", "( )", "()"]) if s.chance(30) else "(" + self.atom(s, names, params, var) + ", " + self.atom(s, names, params, var) + ")")
            elif k == 10:
                out.append(s.choice(names) + s.choice([" ", ""]) + "(")  if s.chance(15) else out.append(s.choice(names))
            else:
                out.append(self.atom(s, names, params, var))
        t = ""
        for o in out:
            sp = s.choice([" ", " ", "", "  ", "/**/", "\t", " \\\n "])
            if t and (sp == "" or sp == "/**/"):
                if sp == "" and (t[-1] in "/" or o[0] in "/" or (t[-1].isalnum() or t[-1] in "_\"'é") and (o[0].isalnum() or o[0] in "_\"'Lué.") or t[-1] == "#" or o[0] == "#" or t[-1] == ".") or t[-1] == "/":
                    sp = " "
            t += (sp if t else "") + o
        return t

    def body2(self, s, names, params, var, cls):
        out = []
        for _ in range(s.below(4)):
            k = s.below(7)
            if k == 0 and params:
                out.append("#" + s.choice(params))
            elif k == 1:
                cls.add("paste")
                out.append(self.pasteable(s, params, var) + " ## " + self.pasteable(s, params, var))
            elif k == 2:
                out.append(", " + var)
            elif k == 3:
                out.append("(" + self.atom(s, names, params, var) + ")")
            else:
                t = self.atom(s, names, params, var)
                out.append(t if t not in ("(", ")") else "p")
        return " ".join(out)

    def pasteable(self, s, params, var):
        k = s.below(7)
        if params and k < 4 and not self.prag:
            return s.choice(params)
        return s.choice(["x", "y1", "M", "_", "foo", "1", "2", "0x", "e", "é"]) if k else s.choice(["M0_%d" % self.u, "x", "M1_%d" % self.u])

    # ---- uses
    def call(self, s, names, params, var, depth=1):
        nm = s.choice(names)
        d = self.macros.get(nm)
        if d is None:
            return nm
        np, v = d
        n = np
        if v:
            n = np + s.choice([0, 1, 1, 2, 3]) if not (np == 0) else s.choice([0, 1, 2])
        args = []
        for _ in range(n):
            k = s.below(8)
            if k == 0:
                args.append("")
            elif k < 3 and depth > 0:
                args.append(self.call(s, names, params, var, depth - 1))
            elif k == 3:
                args.append("(%s, %s)" % (self.atom1(s, names, params, var), self.atom1(s, names, params, var)))
            else:
                args.append(" ".join(self.atom1(s, names, params, var) for _ in range(s.choice([1, 1, 1, 2, 3]))))
        sp = s.choice(["", "", " ", "/**/"])
        pad = s.choice(["", "", " ", "/* c */"])
        return nm + sp + "(" + ",".join(pad + a + s.choice(["", "", " "]) for a in args) + ")"

    def atom1(self, s, names, params, var):
        for _ in range(5):
            t = self.atom(s, names, params, var)
            if t not in (",", "(", ")"):
                return t
        return "q"

    def use(self, s, names, depth, nl):
        out = []
        for _ in range(s.choice([1, 1, 2, 3, 5])):
            k = s.below(9)
            if k < 6:
                t = self.call(s, names, [], None, depth)
                if s.chance(15):
                    t += s.choice(["(", " (", "()(", "(("]) + self.atom1(s, names, [], None) + s.choice([")", ", 2)", ")"]) + (")" if False else "")
                    if t.count("(") > t.count(")"):
                        t += ")" * (t.count("(") - t.count(")"))
                out.append(t)
            elif k == 6:
                out.append(s.choice(names))
            else:
                out.append(self.atom1(s, names, [], None))
        t = ""
        for o in out:
            sp = s.choice([" ", " ", "\n", "", "/**/", "\t"])
            if t and sp in ("", "/**/") and (t[-1] in "/'\"" or o[0] == "/" or (t[-1].isalnum() or t[-1] in "_é.") and (o[0].isalnum() or o[0] in "_\"'é.")):
                sp = " "
            t += (sp if t else "") + o
        if nl and s.chance(40):
            # break lines inside calls
            u = ""
            for ch in t:
                u += ch
                if ch in "(," and s.chance(25) and "'" not in t and '"' not in t:
                    u += s.choice(["\n", "\n  ", " // x\n", "/*\n*/"])
            t = u
        return t


CHECK = C14()
