"""Mutations of C programs at token, line and byte level, and token soup."""
from lib.pp import TOK

KW = ("int char long short float double void unsigned signed _Bool struct union enum static extern inline const volatile restrict _Atomic "
      "_Thread_local typedef auto register constexpr typeof typeof_unqual _Alignas _Alignof sizeof _Generic _Static_assert static_assert "
      "return if else while for do switch case default break continue goto asm __attribute__ __extension__ __func__ _Noreturn "
      "__builtin_va_list __builtin_va_arg __builtin_offsetof __builtin_types_compatible_p __builtin_alloca __builtin_constant_p __auto_type "
      "__builtin_expect __builtin_atomic_exchange __builtin_compare_and_swap __builtin_reg_class __builtin_va_start __builtin_unreachable "
      "__int128 _Complex bool true false nullptr alignas alignof thread_local defer _Defer _Float32 __label__ noreturn main x y z f s a b").split()
PUNCT = "( ) [ ] { } ; , . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : = *= += -= <<= ... # ## @ $ ` \\ :: [[ ]]".split()
NUMS = ("0 1 2 -1 3 7 8 31 32 33 63 64 65 127 128 255 256 32767 32768 65535 65536 2147483647 2147483648 4294967295 4294967296 "
        "9223372036854775807 18446744073709551615 18446744073709551616 0x 0b 0b2 0x1p 1e 1e400 1e-400 0x1p99999 .5 1. 1.f 08 0'1 1' 1u 1lul 1.0L 1i 077777777777777777777777").split()
STRS = ['""', '"a"', "L'\\xff'", "'", '"', "''", "'ab'", 'u8"x"', 'L"\\u00e9"', 'R"(x)"', 'R"xxxxxxxxxxxxxxxxxxxxx(', '"\\', '"\\x"', "'\\u12'", 'U"\\U00110000"', '"\\400"', "'\\777'"]
LINES = ["#include \"s.h\"", "#include <stddef.h>", "#include", "#include <", "#include \"", "#define", "#define x", "#define x x", "#define f(x) #x", "#define f(x,...) x##__VA_ARGS__",
         "#define f(", "#define f(x", "#define f(x,", "#define 1", "#define f(...) #__VA_ARGS__ __VA_OPT__(a ## b)", "#undef", "#undef int", "#if", "#if 1", "#if 0", "#if (", "#if 1/0", "#if defined",
         "#if defined(", "#if __has_include(", "#if __has_include(<x", "#if __has_embed(\"s.c\"", "#elif", "#elif 1", "#else", "#endif", "#line", "#line 0", "#line 5 \"x\"", "#line 99999999999", "# 1 \"", "#error x", "#warning w",
         "#pragma once", "#pragma pack(1)", "#pragma pack(push", "#embed \"s.c\"", "#embed \"s.c\" limit(", "#embed \"s.c\" limit(1) prefix(a", "#embed", "#embed \"nofile\"", "#include_next <stddef.h>", "#ident", "#assert x", "_Pragma(\"once\")", "_Pragma(", "_Pragma(1)",
         "#elifdef x", "#elifndef", "#ifdef", "#ifndef", "#ifdef 1", "__VA_ARGS__", "__VA_OPT__(", "__VA_TAIL__(f(", "__LINE__ __FILE__ __COUNTER__", "/*", "//", "\\", "%:", "#def f(x)", "#enddef", "#define EMPTY", "#define g() f", "__COUNTER__"]
ATTRS = ["__attribute__((packed))", "__attribute__((aligned))", "__attribute__((aligned(", "__attribute__((aligned(3)))", "__attribute__((aligned(0)))", "[[gnu::packed]]", "[[", "[[x::y(", "__attribute__", "__attribute__(", "__attribute__((",
         "__attribute__((cleanup(f)))", "__attribute__((cleanup(1)))", "__attribute__((section(\"x\")))", "__attribute__((section(1)))", "__attribute__((alias(\"f\")))", "__attribute__((constructor(70000)))", "__attribute__((visibility(\"x\")))", "_Alignas(3)", "_Alignas(int", "_Alignas(1<<40)"]
FRAG = ["struct S;", "struct S s;", "enum E;", "enum E e;", "union U { struct S x; };", "int a[];", "int a[-1];", "int a[x];", "int f(", "int f() {", "void v;", "struct {int a;} ;", "struct { int a[]; } fa = {1, {2}};", "int x : 3;",
        "({})", "({1;})", "(int){1}", "(struct S){", "(int[]){1,2}", ".a = 1", "[0] = 1", "[0 ... 2] = 1", "[2 ... 0] = 1", "[-1] = 1", "case 1:", "case 1 ... 0:", "default:", "L:", "goto L;", "goto *p;", "&&L", "&&", "asm(\"\");", "asm(\"%0\" : \"=r\"(x));",
        "asm(\"%\" : : \"r\"(1));", "asm goto(\"\" : : : : L);", "asm(\"%[n]\" : \"=x\"(1));", "asm(\"\" : \"+r\"(1));", "asm(\"\"::\"0\"(1));", "asm(\"\":::\"rax\",\"zz\");", "sizeof(int[x])", "sizeof", "sizeof(", "_Alignof(", "(void)0", "(int[2])x", "(struct S)x", "*(void*)0", "(*f)()", "f(1,2,3)", "f(,)",
        "__builtin_va_arg(ap, int)", "__builtin_va_arg(", "__builtin_va_start(", "__builtin_offsetof(struct S, ", "__builtin_offsetof(int, x)", "__builtin_offsetof(struct {int a[2];}, a[5].b)", "_Generic(", "_Generic(1)", "_Generic(1, int: 2, int: 3)", "_Generic(1, default: 2, default: 3)", "_Generic(1, char: 2)", "_Static_assert(", "_Static_assert(0);", "_Static_assert(x, 1);",
        "typeof(", "typeof(x) y;", "typeof(int[x]) z;", "typedef int T; T T;", "typedef", "extern int", "static static int q;", "long long long l;", "unsigned float uf;", "int int i;", "void f(void v);", "int f()();", "int f[2]();", "int (*f[2])(int);", "int f(int a, int a) { return a; }", "f(x) int y; {}", "int (x);", "int ((x));", "int (*)(int);", "constexpr int c = x;", "constexpr int *p = 1;",
        "auto q = 1;", "auto q;", "auto q = {1};", "__auto_type q = q;", "defer {}", "_Defer return;", "defer goto L;", "if (int i = 1; i)", "for (;;) break L;", "continue L;", "while (int i = 1)", "switch (1) { case x: ; }", "switch (1.0) {}", "return (struct S){};", "x = {1};", "x.y.z", "1 = 2;", "1++", "&1", "&&&", "-s", "!s", "s + 1", "s ? 1 : 2", "1 ? s : 1", "s = s = s", "f()()", "\"abc\"[1]", "&\"abc\"", "*\"\"", "x[x]", "1[2]", "s[0]", "s->a", "s.", "->", "p->->"]


def lex(text):
    out, i = [], 0
    while i < len(text):
        if text[i] in " \t\n\r\v\f":
            j = i
            while j < len(text) and text[j] in " \t\n\r\v\f":
                j += 1
            out.append(text[i:j])
            i = j
            continue
        m = TOK.match(text, i)
        out.append(m.group(0))
        i = m.end()
    return out


def word(s, toks=None):
    k = s.below(9)
    if k == 0 and toks:
        return s.choice(toks)
    if k <= 2:
        return s.choice(PUNCT)
    if k == 3:
        return s.choice(NUMS)
    if k == 4:
        return s.choice(STRS)
    if k == 5:
        return s.choice(ATTRS)
    if k == 6:
        return s.choice(FRAG)
    if k == 7:
        return "\n" + s.choice(LINES) + "\n"
    return s.choice(KW)


def mutate(s, text, other=None, nmut=None):
    """(mutated text, classes)"""
    toks = lex(text)
    cls = set()
    for _ in range(nmut or s.choice([1, 1, 1, 2, 3, 5, 10])):
        n = len(toks)
        if not n:
            break
        k = s.below(14)
        i = s.below(n)
        if k == 0:
            del toks[i:i + s.choice([1, 1, 2, 4])]
            cls.add("delete")
        elif k == 1:
            j = min(n, i + s.choice([1, 2, 5, 12]))
            toks[i:i] = toks[i:j]
            cls.add("duplicate")
        elif k == 2:
            j = s.below(n)
            toks[i], toks[j] = toks[j], toks[i]
            cls.add("swap")
        elif k in (3, 4, 5):
            toks[i:i] = [" ", word(s, toks), " "]
            cls.add("insert")
        elif k in (6, 7, 8):
            toks[i] = " " + word(s, toks) + " "
            cls.add("replace")
        elif k == 9:
            del toks[i:]
            cls.add("truncate")
        elif k == 10:
            j = s.below(n)
            ln = s.choice([3, 10, 30])
            toks[i:i + s.choice([0, ln])] = (other or toks)[j:j + ln]
            cls.add("splice")
        elif k == 11:
            # near-identical token: number tweak, identifier exchange of a like kind
            ids = [t for t in toks if t[:1].isalpha() or t[:1] == "_"]
            if ids:
                for _ in range(20):
                    if toks[i] in ids:
                        break
                    i = s.below(n)
                toks[i] = s.choice(ids)
            cls.add("ident")
        elif k == 12:
            # punctuator exchange
            for _ in range(20):
                if toks[i].strip() in PUNCT:
                    break
                i = s.below(n)
            toks[i] = s.choice(PUNCT)
            cls.add("punct")
        else:
            t = toks[i]
            if t:
                p = s.below(len(t))
                c = s.choice(["\0", "\x80", "\xff", "\n", "\\", '"', "'", "(", "0", "\ud800", "\u00e9", "\x1a", "*", "/", "\r", "\\\n"])
                c = c if c != "\ud800" else "\udced\udca0\udc80"
                toks[i] = t[:p] + c + t[p + s.below(2):]
            cls.add("char")
    return "".join(toks), sorted(cls)


def soup(s):
    n = s.choice([1, 3, 8, 20, 60])
    pre = s.choice(["", "int x, *p; struct S { int a; } s; int f(int);\n", "int main(void) { int x = 1; ", "struct S { int a : 3; char b[4]; } s; int g(int x, ...) { L: "])
    return pre + " ".join(word(s) for _ in range(n))
