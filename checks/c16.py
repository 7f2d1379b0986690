"""C16: neutral source rewrites give the same code."""
import os, re
from lib import cc, corpus
from lib.engine import Check, Failure, Src
from lib.pp import TOK

KEEP_NL = object()
TYPEW = set("int char short long float double void unsigned signed struct union enum static const extern auto typeof register".split())
SAFE = set(";,(){}[]")


class Item:
    """A pp-token with the white space in front of it, or a whole directive (kind 'dir')."""
    __slots__ = ("kind", "text", "space")

    def __init__(self, kind, text, space):
        self.kind, self.text, self.space = kind, text, space


def lex(text):
    items, i, bol, sp = [], 0, True, ""
    n = len(text)
    while i < n:
        c = text[i]
        if c == "\n":
            sp += c
            bol = True
            i += 1
        elif c in " \t\r\v\f":
            sp += c
            i += 1
        elif text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
            sp += " "
            i = j
        elif text.startswith("/*", i):
            i = text.index("*/", i) + 2
            sp += " "
        elif text.startswith("\\\n", i):
            i += 2
        elif c == "#" and bol:
            j = i
            while True:
                j = text.find("\n", j)
                if j < 0:
                    j = n
                    break
                if text[j - 1] != "\\":
                    break
                j += 1
            items.append(Item("dir", text[i:j], sp))
            sp = ""
            i = j
        else:
            m = TOK.match(text, i)
            items.append(Item("id" if m.lastgroup == "id" else m.lastgroup, m.group(0), sp))
            sp = ""
            bol = False
            i = m.end()
    return items


def unlex(items):
    out = []
    for it in items:
        if it.kind == "dir":
            if out and not "".join(out[-3:]).endswith("\n") and "\n" not in it.space:
                out.append("\n")
            out.append(it.space + it.text + "\n")
        else:
            out.append(it.space + it.text)
    return "".join(out) + "\n"


def rnd_space(s, nl=True):
    k = s.below(9)
    if k == 0:
        return " "
    if k == 1:
        return "\t "
    if k == 2:
        return "/* ; } \" ' # */"
    if k == 3 and nl:
        return "\n"
    if k == 4 and nl:
        return "// it's a \" { comment\n"
    if k == 5:
        return " \\\n"
    if k == 6:
        return "/**/"
    if k == 7 and nl:
        return "\v\f\n\n  "
    return " /*\n*/ " if nl else "  "


def can_join(a, b):
    return a[-1] in SAFE and a in SAFE and b[0] not in "#" or b in SAFE


# ---- rewrites of the token list
def re_space(s, items, dens):
    for k, it in enumerate(items):
        if it.kind == "dir":
            continue
        if s.chance(dens):
            prev = items[k - 1] if k else None
            if it.space and prev is not None and prev.kind != "dir" and can_join(prev.text, it.text) and it.text[0] != "#" and s.chance(40):
                it.space = ""
            else:
                it.space = ("\n" if prev is not None and prev.kind == "dir" else " " if prev is not None and prev.text[-1] == "/" else "") + rnd_space(s) + (rnd_space(s) if s.chance(20) else "")
            if it.text == "#":
                it.space = " "


def splice_inside(s, items, dens):
    """Backslash-newline inside tokens."""
    for it in items:
        if it.kind == "dir":
            if s.chance(dens) and "\\" not in it.text and "//" not in it.text and len(it.text) > 3:
                p = s.range(1, len(it.text) - 1)
                it.text = it.text[:p] + "\\\n" + it.text[p:]
        elif s.chance(dens) and len(it.text) > 1 and "\\" not in it.text and it.text[0] != "R":
            p = s.range(1, len(it.text) - 1)
            it.text = it.text[:p] + s.choice(["\\\n", "\\\n\\\n", "\\\r\n"]) + it.text[p:]


def dir_space(s, items):
    for it in items:
        if it.kind == "dir" and s.chance(30):
            m = re.match(r"#\s*(\w*)(\s|$)", it.text)
            if m and "\n" not in it.text[:m.end()]:
                it.text = s.choice(["#", "# ", "#/**/", " #\t", "/* x */ #", "#/* a\n b */ "]) + m.group(1) + s.choice([" ", "\t", " /* */ "]) + it.text[m.end():]
        if it.kind == "dir" and s.chance(20) and not re.match(r"\s*#\s*(include|pragma|error|warning)", it.text):
            it.text += s.choice([" ", " // comment", " /* comment */", "\t\f"])


def macro_regions(items):
    """Names of function-like macros; for each item of an outermost macro call, the first and last item of that call."""
    fl = set(re.findall(r"#\s*define\s+(\w+)\(", "\n".join(it.text for it in items if it.kind == "dir")))
    res, k = {}, 0
    while k < len(items):
        if items[k].text in fl and items[k].kind == "id" and k + 1 < len(items) and items[k + 1].text == "(":
            e, dep = k + 1, 0
            while e < len(items):
                dep += (items[e].text == "(") - (items[e].text == ")")
                if dep == 0:
                    break
                e += 1
            for j in range(k, min(e + 1, len(items))):
                res[id(items[j])] = (items[k], items[min(e, len(items) - 1)])
            k = e
        k += 1
    return fl, res


def macro_wrap(s, items, count, defs):
    """Replace token runs by macro invocations that expand to them."""
    n = [len(defs) * 10]
    fl, inargs = macro_regions(items)
    idx = [k for k, it in enumerate(items) if it.kind != "dir"]
    if not idx:
        return items
    for _ in range(count):
        k = s.choice(range(len(items)))
        if items[k].kind == "dir":
            continue
        ln = s.choice([1, 1, 2, 3, 5, 9])
        e = k
        while e < len(items) and e - k < ln and items[e].kind != "dir":
            e += 1
        run = items[k:e]
        regs = {id(r[0]): r for r in (inargs.get(id(it)) for it in run) if r}
        whole = all(any(it is r[0] for it in run) and any(it is r[1] for it in run) for r in regs.values())
        inm = bool(regs) and not whole
        if inm and (len(regs) > 1 or any(id(it) not in inargs or it in inargs[id(it)] for it in run)):
            continue
        body = "".join((("" if not it.space else " ") if j else "") + it.text for j, it in enumerate(run))
        if any(it.text.startswith(("W_", "__VA") + (("_Pragma",) if it.kind == "id" else ())) or it.text.startswith(( "__LINE", "__COUNTER", "defined")) or "\n" in it.text for it in run):
            continue
        name = "W_%d" % (n[0] + k)
        n[0] += 100000
        dep = 0
        bal = True
        comma = False
        for it in run:
            if it.text == "(":
                dep += 1
            elif it.text == ")":
                dep -= 1
                if dep < 0:
                    bal = False
            elif it.text == "," and dep == 0:
                comma = True
        bal = bal and dep == 0
        if inm and not (bal and not comma):
            continue
        sp = run[0].space
        form = s.below(7)
        if form == 0 or not bal:
            defs.append("#define %s %s" % (name, body))
            new = name
        elif form == 1 and not comma:
            defs.append("#define %s(x) x" % name)
            new = "%s(%s)" % (name, body)
        elif form == 2:
            defs.append("#define %s(...) __VA_ARGS__" % name)
            new = "%s (%s)" % (name, body)
        elif form == 3 and len(run) == 1 and run[0].kind == "id" and len(body) > 1 and body.isascii():
            p = s.range(1, len(body) - 1)
            if re.match(r"[0-9]|.*[eE]$", body[p:p + 1]) and False:
                continue
            defs.append("#define %s(a, b) a##b" % name)
            if body[p].isdigit() and not body[p:].isalnum():
                continue
            new = "%s(%s, %s)" % (name, body[:p], body[p:])
        elif form == 4:
            defs.append("#define %s() %s" % (name, body))
            new = "%s(\n)" % name
        elif form == 5:
            defs.append("#define %s_b %s\n#define %s %s_b" % (name, body, name, name))
            new = name
        elif form == 6 and not comma:
            defs.append("#define %s(x, ...) __VA_OPT__(x)" % name if False else "#define %s(y, x) x" % name)
            new = "%s(%s, %s)" % (name, s.choice(["", "1", "(,)", '")"']), body)
        else:
            defs.append("#define %s() %s" % (name, body))
            new = "%s()" % name
        if not sp and k and items[k - 1].kind != "op":
            sp = " "
        if e < len(items) and not items[e].space and items[e].kind not in ("op", "dir"):
            items[e].space = " "
        items = items[:k] + [Item("mac", new, sp)] + items[e:]
    return items


def parens(s, items):
    out, k = [], 0
    d_enum = 0
    while k < len(items):
        it = items[k]
        if it.kind == "num" and s.chance(15) and not (k and items[k - 1].text in (".", "->", "asm")):
            out += [Item("op", "(", it.space), Item("num", it.text, ""), Item("op", ")", "")]
        elif it.text == "return" and it.kind == "id" and k + 1 < len(items) and items[k + 1].text != ";" and s.chance(40):
            j, dep = k + 1, 0
            ok = True
            while j < len(items) and not (items[j].text == ";" and dep == 0):
                if items[j].kind == "dir":
                    ok = False
                dep += (items[j].text in "([{" and items[j].kind == "op") - (items[j].text in ")]}" and items[j].kind == "op")
                j += 1
            if ok and j < len(items) and not items[k + 1].text == "{":
                items = items[:k + 1] + [Item("op", "(", " ")] + items[k + 1:j] + [Item("op", ")", "")] + items[j:]
            out.append(it)
        else:
            out.append(it)
        k += 1
    return out


GARBAGE = ["#if 0\n it's \" unmatched ' @ ` \\ #else_ #error no\n #if 1\n #else\n #endif\n#endif", "#ifdef W_undefined_name\n#error taken\n#elif 0\n(((\n#endif",
           "#if 1\n#else\n} } } garbage\n#endif", "#ifndef W_undef\n#elif 1/0\n#error x\n#else\n#error y\n#endif", "#define W_unused(a, b) a##b #a ) (\n#undef W_unused",
           "#\n#  \n# /* null */", "#if (1 ? 0 : (2/0)) && W_x\n\"\n#endif", "#pragma W foo \"bar\" it's"]


def sprinkle(s, items, count, marks):
    for _ in range(count):
        k = s.below(len(items) + 1)
        g = s.choice(GARBAGE)
        if marks and s.chance(50):
            g = s.choice(["#line 7", "#line 1000 \"other.c\"", "# 33 \"x y.h\" 1 3", "#line 99 /* c */"])
        # never between a macro name and its argument list: only at statement ends; a line number
        # never changes among the arguments of a macro (undefined)
        dep = 0
        for it in items[:k]:
            dep += it.kind == "op" and (it.text == "(") - (it.text == ")")
        mark = "line" in g[:5] or g.startswith("# 33")
        while k < len(items) and k > 0 and (items[k - 1].text not in (";", "}", "{") and items[k - 1].kind != "dir" or mark and dep):
            dep += items[k].kind == "op" and (items[k].text == "(") - (items[k].text == ")")
            k += 1
        items = items[:k] + [Item("dir", g, "\n")] + items[k:]
    return items


def depth_ok(items):
    """Positions (item indices) at file scope, outside any parentheses."""
    d, res = 0, [0]
    for k, it in enumerate(items):
        if it.kind == "op":
            if it.text in "([{":
                d += 1
            elif it.text in ")]}":
                d -= 1
        if d == 0 and it.text in (";", "}"):
            res.append(k + 1)
    return res


PRAGMAS = ["_Pragma(\"foo\")", "_Pragma ( \"GCC diagnostic ignored \\\"-Wfoo bar\\\"\" )", "_Pragma(\"a\") _Pragma(\"b \\\\ c\")", "_Pragma(\n\"it's\"\n)", "_Pragma(\"\")",
           "W_PR(omp parallel for)", "W_PR(message(\"x ) y\"))", "W_PD", "W_PO(W_PS)", "W_PV(,a W_PD b,)"]
PRAGDEFS = ["#define W_PR(x) _Pragma(#x)", "#define W_PS \"push, 1\"", "#define W_PO(x) _Pragma(x)", "#define W_PD W_PR(x) _Pragma(\"y\") W_PO(\"z\")", "#define W_PV(...) _Pragma(#__VA_ARGS__)"]


def pragmas(s, items, count, defs):
    """Pragma operators with no meaning, at any place between tokens."""
    fl, inargs = macro_regions(items)
    used = False
    for _ in range(count):
        k = s.range(1, len(items)) if len(items) > 1 else 1
        if k >= len(items) or items[k].kind == "dir" or items[k - 1].kind != "op" or items[k - 1].text == "#" or items[k].text == "#" \
                or id(items[k]) in inargs and id(items[k - 1]) in inargs:
            continue
        t = s.choice(PRAGMAS)
        used |= "W_" in t
        if items[k].kind != "op" and not items[k].space:
            items[k].space = " "
        items = items[:k] + [Item("mac", t, s.choice(["", " ", "\n"]))] + items[k:]
    if used:
        defs += PRAGDEFS
    return items


ALT = {"inline": ["__inline__"], "const": ["__const__"], "volatile": ["__volatile", "__volatile__"], "signed": ["__signed__"],
       "_Alignof": ["alignof", "__alignof__"], "alignof": ["_Alignof"], "typeof": ["__typeof__", "__typeof"],
       "__typeof__": ["typeof", "__typeof"], "__asm__": ["__asm"], "__asm": ["__asm__"], "restrict": ["__restrict", "__restrict__"], "_Alignas": ["alignas"], "alignas": ["_Alignas"],
       "_Bool": ["bool"], "bool": ["_Bool"], "_Static_assert": ["static_assert"], "static_assert": ["_Static_assert"], "_Thread_local": ["thread_local", "__thread"],
       "__thread": ["_Thread_local"], "__attribute__": ["__attribute"]}
NOATTR = set("else while case default _Static_assert static_assert typedef } ) ;".split())
IDLE = ["[[maybe_unused]]", "[[gnu::unused]]", "[[]]", "[[__maybe_unused__, deprecated(\"a ]] b\")]]", "[[foo::bar(1, [2], {3}, ')')]]", "[ [ gnu :: unused ] /**/ ]", "[[,gnu::__unused__,,]]",
        "[[nodiscard(\"x\")]]", "[[maybe_unused]] [[gnu::unused]]", "[[gnu::unused,\n gnu::noinline]]", "__attribute__((unused))", "__attribute((__unused__)) __attribute__(())",
        "__attribute__((,unused,,))"]


def attr_text(items, k):
    """(end index, inner tokens) of the attribute list __attribute__((...)) that starts at item k."""
    dep, j = 0, k + 1
    while j < len(items):
        if items[j].kind == "dir":
            return None
        dep += items[j].kind == "op" and (items[j].text == "(") - (items[j].text == ")")
        if dep == 0:
            break
        j += 1
    if j >= len(items) or j - k < 5 or items[k + 1].text != "(" or items[k + 2].text != "(" or items[j - 1].text != ")":
        return None
    return j, items[k + 3:j - 1]


def respell(s, items):
    """Alternative spellings of keywords and attributes; attributes without effect."""
    fl, inargs = macro_regions(items)
    out, k, par, prev = [], 0, 0, None
    dens = s.choice([3, 10, 40])
    fn = 0
    while k < len(items):
        it = items[k]
        if it.kind == "dir":
            out.append(it)
            prev, k = it, k + 1
            continue
        if it.kind == "op":
            par += (it.text in "([") - (it.text in ")]") if len(it.text) == 1 else 0
            fn += (it.text == "{") - (it.text == "}")
        if it.kind == "id" and it.text in ("__attribute__", "__attribute") and id(it) not in inargs:
            a = attr_text(items, k)
            start = prev is None or prev.kind == "dir" or prev.text in (";", "{", "struct", "union")
            if a and s.chance(60):
                j, inner = a
                names = [t for t in inner]
                groups, dep, cur = [], 0, []
                for t in names:
                    dep += t.kind == "op" and (t.text == "(") - (t.text == ")")
                    if t.text == "," and dep == 0:
                        groups.append(cur)
                        cur = []
                    else:
                        cur.append(t)
                groups.append(cur)
                if all(g and g[0].kind == "id" for g in groups):
                    txt = []
                    for g in groups:
                        nm = g[0].text.strip("_")
                        nm = s.choice([nm, "__%s__" % nm])
                        txt.append((nm, nm + "".join(t.space + t.text for t in g[1:])))
                    form = s.below(4) if start and par == 0 else 2 + s.below(2)
                    if form < 2:
                        v = s.choice(["gnu::", "__gnu__ :: ", "gnu ::"])
                        new = "[[" + ", ".join(v + t for _, t in txt) + "]]" if form == 0 else " ".join("[[" + v + t + "]]" for _, t in txt)
                    elif form == 2:
                        new = " ".join("__attribute__((%s))" % t for _, t in txt)
                    else:
                        new = "__attribute((%s))" % " , ".join(t for _, t in txt)
                    out.append(Item("mac", new, it.space))
                    prev, k = items[j], j + 1
                    continue
        if prev is not None and prev.text == ";" and par == 0 and it.kind == "id" and it.text not in NOATTR and id(it) not in inargs and it.text not in fl \
                and not (k + 1 < len(items) and items[k + 1].text == ":") and s.chance(dens):
            a = s.choice(IDLE)
            if not a.startswith("__") or it.text in TYPEW:
                out.append(Item("mac", a, it.space or " "))
                if not it.space:
                    it.space = " "
        if it.kind == "id" and it.text in ALT and s.chance(dens * 2):
            it.text = s.choice(ALT[it.text])
        out.append(it)
        prev, k = it, k + 1
    return out


class C16(Check):
    id = "C16"
    technique = "metamorphic property-based testing: generated valid programs, neutral source rewrites, byte comparison of the -S output"
    level_note = ("Random exploration with a fixed seed: no absence claim. The rewrites are those the C standard makes neutral; the code of the "
                  "rewritten file has to be byte for byte that of the original.")
    rule = ("a case is one (program, chain of rewrites) pair; non-trivial if the rewritten text differs from the original and the original compiles")
    batches = {"quick": 2400, "thorough": 40000}
    per_batch = 4
    assumptions = ["assembly text carries no source positions without -g"]

    def variant(self, s, text, d, name, cn=None):
        """Apply a chain; write files; return (argv tail, classes) or None."""
        strings = cn == "c13"          # spelling is observable there (stringizing, raw strings): only whole-file rewrites
        items = [Item("x", text.rstrip("\n"), "")] if strings else lex(text)
        cls, extra, defs = [], [], []
        pre = []
        if s.chance(40) and not strings:
            items = parens(s, items)
            cls.append("parens")
        if s.chance(35) and not strings:
            items = lex(unlex(respell(s, items)))
            cls.append("respell")
        if s.chance(30) and not strings:
            items = pragmas(s, items, s.choice([1, 4, 20]), defs)
            cls.append("pragma-operators")
        if s.chance(55) and not strings:
            items = macro_wrap(s, items, s.range(1, 25), defs)
            cls.append("macro-wrap")
        if s.chance(40) and not strings:
            items = sprinkle(s, items, s.range(1, 6), s.chance(50))
            cls.append("skipped-groups")
        if s.chance(60) and not strings:
            re_space(s, items, s.choice([5, 30, 90]))
            cls.append("white-space")
        if s.chance(30) and not strings:
            dir_space(s, items)
            cls.append("directive-space")
        if s.chance(40) and not strings:
            splice_inside(s, items, s.choice([2, 10, 40]))
            cls.append("splices")
        # move a leading file-scope part to headers
        mode = s.below(6)
        post_defs = list(defs)
        head = "".join(x + "\n" for x in post_defs)
        if mode == 1 and not any("\n" in x for x in post_defs):
            # macro definitions on the command line
            argv_defs = []
            for x in post_defs:
                m = re.match(r"#define (\w+(?:\([^)]*\))?) (.*)$", x)
                if m and len(m.group(2)) < 2000:
                    argv_defs += s.choice([["-D", m.group(1) + "=" + m.group(2)], ["-D" + m.group(1) + "=" + m.group(2)]])
            if len(argv_defs) >= 1 or not post_defs:
                extra += argv_defs
                extra += s.choice([[], ["-DW_gone=1", "-UW_gone"], ["-U", "W_never"]])
                head = ""
                cls.append("-D")
        body = unlex(items)
        if mode in (2, 3, 4):
            cuts = depth_ok(items)
            c = s.choice(cuts)
            a, b = unlex(items[:c]), unlex(items[c:])
            hn = name + "_h.h"
            cc.write(os.path.join(d, hn), (head if s.chance(50) or mode == 2 else head) + a)
            if mode == 2:
                extra += ["-include", hn]
                body = b
                cls.append("-include")
            else:
                body = s.choice(['#include "%s"\n', "#  include <%s>\n", "#define W_HDR \"%s\"\n#include W_HDR\n"]) % hn + b
                extra += s.choice([["-I", "."], ["-I."], ["-isystem", "."], ["-idirafter", "."], ["-Inowhere", "-I."]])
                cls.append("#include")
            head = ""
        body = head + body
        crlf = s.chance(25)
        data = body.encode("utf-8", "surrogateescape")
        if crlf:
            data = data.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")
            cls.append("crlf")
        if s.chance(10):
            data = b"\xef\xbb\xbf" + data
            cls.append("bom")
        if s.chance(15):
            data = data.rstrip(b"\r\n \\")
            if not data.endswith(b"*/") or True:
                cls.append("no-final-newline")
        cc.write(os.path.join(d, name + ".c"), data)
        via = s.choice(["direct", "direct", "-E", "-E", "-E -P", "stdin", "-E twice", "-save-x"])
        cls.append("via " + via)
        return extra, via, cls

    def asm(self, ctx, d, flags, args, name, stdin=b""):
        r = cc.run([ctx.builds["default"], *flags, *args, "-S", "-o", name + ".s"], cwd=d, timeout=60, stdin=stdin)
        if r.rc:
            return None, r
        p = os.path.join(d, name + ".s")
        t = open(p, "rb").read()
        os.unlink(p)
        return t, r

    def compile_variant(self, ctx, d, flags, extra, via, name):
        cc_ = ctx.builds["default"]
        src = name + ".c"
        if via == "direct":
            return self.asm(ctx, d, flags, extra + [src], name)
        if via == "stdin":
            return self.asm(ctx, d, flags, extra + ["-xc", "-"], name, stdin=open(os.path.join(d, src), "rb").read() or b"\n")
        if via == "-save-x":
            os.rename(os.path.join(d, src), os.path.join(d, name + ".txt"))
            return self.asm(ctx, d, flags, extra + ["-x", "c", name + ".txt"], name)
        p = ["-P"] if via == "-E -P" else []
        r = cc.run([cc_, *flags, *extra, "-E", *p, "-o", name + "_e.c", src], cwd=d, timeout=60)
        if r.rc:
            return None, r
        if via == "-E twice":
            r = cc.run([cc_, *flags, "-E", "-o", name + "_f.c", name + "_e.c"], cwd=d, timeout=60)
            if r.rc:
                return None, r
            return self.asm(ctx, d, flags, [name + "_f.c"], name)
        return self.asm(ctx, d, flags, [name + "_e.c"], name)

    def base(self, src):
        text, flags, cn = corpus.tu(src)
        return text, flags, cn

    def one(self, ctx, d, src, stats, logsrc=None):
        text, flags, cn = self.base(src)
        if src.chance(25):
            flags = flags + src.choice([["-O0"], ["-fPIC"], ["-fno-pic"]])
        cc.write(os.path.join(d, "base.c"), text)
        A, r = self.asm(ctx, d, flags, ["base.c"], "base")
        if A is None:
            if stats:
                stats.notes.append("base rejected: " + r.err[-200:])
                stats.discarded += 1
            return None
        extra, via, cls = self.variant(src, text, d, "v", cn)
        B, r = self.compile_variant(ctx, d, flags, extra, via, "v")
        if stats:
            stats.case(text + repr((extra, via, cls)), True, cls + ["base:" + cn], sample=repr((via, cls, extra))[:300])
        if B == A:
            return None
        names = [n for n in os.listdir(d) if n.startswith("v") or n == "base.c"]
        files = {n: open(os.path.join(d, n), encoding="utf-8", errors="surrogateescape", newline="").read() for n in names}
        what = "rejected: " + r.err.strip()[-250:] if B is None else "different code"
        return Failure("rewritten program (%s) gives %s" % (", ".join(cls), what), files, cmd="slimcc %s base.c versus %s %s" % (" ".join(flags), via, extra),
                       extra={"flags": flags, "args": extra, "via": via})

    def run_batch(self, ctx, idx, src, stats):
        for _ in range(self.per_batch):
            s = Src(src.bits(62))
            d = ctx.fresh()
            f = self.one(ctx, d, s, stats)
            if f:
                f = self.recheck(ctx, s.log)
                if f:
                    stats.failures.append(f)

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        f = self.one(ctx, ctx.fresh(), s, None)
        if f:
            f.choices = s.log
        return f

    def replay_record(self, ctx, rec):
        if not rec.get("files") or rec.get("choices"):
            return self.recheck(ctx, rec["choices"])
        d = ctx.fresh()
        for n, t in rec["files"].items():
            cc.write(os.path.join(d, n), t)
        x = rec["extra"]
        A, r = self.asm(ctx, d, x["flags"], ["base.c"], "base")
        B, r2 = self.compile_variant(ctx, d, x["flags"], x["args"], x["via"], "v")
        return None if A is not None and A == B else Failure("rewritten program differs: " + r2.err[-200:], rec["files"])


CHECK = C16()
