"""C20: ill-formed programs are rejected, with a diagnostic at the right place."""
import os, re
from lib import cc
from lib.engine import Check, Failure, Src

PRE = r'''int printf(const char *, ...);
typedef struct Q { int a; const int c; unsigned b : 5; struct { int in; }; int arr[4]; struct Q *next; double d; } Q;
typedef union N { int i; float f; char s[4]; } N;
struct inc; union uinc; enum en { EN0, EN1 = 7 };
typedef int T0; typedef int FT(int, long);
static int g0; extern int g1; static const int gc = 4; static Q gq; static N gn; static int ga[8]; static int *gp = ga; static double gd; static void *gv; static struct inc *gi;
static int f0(void) { return 1; } static int f1(int a) { return a; } static int f2(int a, long b) { return a + (int)b; } static void fv(int a) { (void)a; }
static int fe(int a, ...) { return a; } static Q fq(void) { return gq; } static void fcl(void *a) { (void)a; } static int (*fp1)(int) = f1;
'''


class K:
    def __init__(self, name, lvl, bad, good, after=False, live=False, flags="", trust=False):
        self.name, self.lvl, self.bad, self.good, self.after, self.live = name, lvl, bad, good, after, live
        self.flags, self.trust = flags, trust       # options it needs; a construct the references do not have or do not check


def kinds():
    """(name, level, ill-formed texts, the same without the error).  $i: an int expression, $n: a fresh name, $c: a positive constant."""
    E, S, F, M, D = "E", "S", "F", "M", "D"
    L = []
    def add(name, lvl, *pairs, **kw):
        for b, g in pairs:
            L.append(K(name, lvl, b, g, **kw))
    # expressions
    add("undeclared", E, ("nope_$n", "g0"), ("(nope_$n)", "(g0)"), ("-nope_$n", "-g0"), ("f1(nope_$n)", "f1(g0)"), ("ga[nope_$n]", "ga[g0]"), ("gq.arr[nope_$n]", "gq.arr[g0]"))
    add("implicit function", E, ("nofn_$n($i)", "f1($i)"), ("nofn_$n()", "f0()"))
    add("no member", E, ("gq.zz", "gq.a"), ("gq.next->zz", "gq.next->a"), ("gn.a", "gn.i"), ("fq().zz", "fq().a"), ("(&gq)->q", "(&gq)->a"), ("((Q){0}).zz", "((Q){0}).a"),
        ("(int)sizeof(gq.zz)", "(int)sizeof(gq.a)"), ("(int)__builtin_offsetof(Q, zz)", "(int)__builtin_offsetof(Q, a)"), ("(int)__builtin_offsetof(Q, arr.x)", "(int)__builtin_offsetof(Q, arr)"))
    add("member of a non-struct", E, ("g0.a", "gq.a"), ("gp->a", "gq.next->a"), ("f1.a", "gq.a"), ("($i).a", "gq.a"), ("ga.a", "gq.a"), ("gd.a", "gq.a"))
    add("incomplete struct", E, ("gi->a", "gq.next->a"), ("(int)sizeof(struct inc)", "(int)sizeof(Q)"), ("(int)sizeof *gi", "(int)sizeof *gq.next")
        )
    add("arrow on a struct", E, ("gq->a", "gq.a"), ("fq()->a", "fq().a"))
    add("argument count", E, ("f1()", "f1($i)"), ("f1($i, $i)", "f1($i)"), ("f0($i)", "f0()"), ("f2($i)", "f2($i, 1)"), ("f2(1, 2, $i)", "f2(1, $i)"), ("fp1($i, 3)", "fp1($i)"), ("(*fp1)()", "(*fp1)(1)"), ("fe()", "fe(1)"), ("(&f1)(1, 2)", "(&f1)(1)"))
    add("call of a non-function", E, ("g0(1)", "f1(1)"), ("gp($i)", "fp1($i)"), ("($i)()", "f0()"), ("gq(1)", "f1(1)"), ("ga(2)", "f1(2)"), ("gd()", "f0()"))
    add("struct operand", E, ("gq + 1", "gq.a + 1"), ("$i - gq", "$i - gq.a"), ("gq * gq", "gq.a * gq.a"), ("!gq", "!gq.a"), ("-gq", "-gq.a"), ("~gq", "~gq.a"), ("gq && 1", "gq.a && 1"), ("1 || gq", "1 || gq.a"), ("gq == gq", "gq.a == gq.a"),
        ("gq < 1", "gq.a < 1"), ("(gq ? 1 : 2)", "(gq.a ? 1 : 2)"), ("$i << gq", "$i << gq.a"), ("ga[gq]", "ga[gq.b & 3]"), ("gq % 3", "gq.a % 3"), ("gn | 1", "gn.i | 1"), ("gq++", "gq.a++"), ("--gn", "--gn.i"), ("+gq", "+gq.a"), ("gq[0]", "gq.arr[0]"))
    add("void operand", E, ("fv(1) + 1", "f1(1) + 1"), ("!fv(2)", "!f1(2)"), ("f1(fv(1))", "f1(f1(1))"), ("ga[fv(0)]", "ga[f1(0) & 3]"), ("-fv(1)", "-f1(1)"), ("(fv(1) ? 1 : 2)", "(f1(1) ? 1 : 2)"), ("fv(1) && 1", "f1(1) && 1"), ("(int)fv(1)", "(int)f1(1)"),
        ("fv(1) == 0", "f1(1) == 0"), ("(1 ? fv(1) : 2) + 1", "(1 ? f1(1) : 2) + 1"))
    add("integer operand required", E, ("gd % 2", "(int)gd % 2"), ("$i << gd", "$i << (int)gd"), ("gd & 1", "(int)gd & 1"), ("~gd", "~(int)gd"), ("gd | $i", "(int)gd | $i"), ("1.0f ^ 2", "1 ^ 2"), ("$i >> 1.5", "$i >> 1"), ("gp & 1", "*gp & 1"), ("~gp", "~*gp"),
        ("gp % 2", "*gp % 2"), ("gp << 1", "*gp << 1"), ("ga[gd]", "ga[(int)gd & 3]"), ("$i % 2.0", "$i % 2"))
    add("pointer operand", E, ("(int)(long)(gp + gp)", "(int)(long)(gp + 1)"), ("(int)(long)(gp * 2)", "(int)(*gp * 2)"), ("(int)(long)(-gp)", "-*gp"), ("(int)(long)(1 - gp)", "1 - *gp"), ("(int)(gp / 2)", "(int)(*gp / 2)"), ("(int)(long)(gp + 1.0)", "(int)(long)(gp + 1)"),
        ("(int)(long)(gd + gp)", "(int)(long)(1 + gp)"), ("(int)(long)(gp | 0)", "(*gp | 0)"))
    add("dereference", E, ("*g0", "*gp"), ("*gd", "*gp"), ("*gq", "*gp"), ("**gp", "*gp"), ("(*$i)", "(*gp)"), ("g0[0]", "gp[0]"), ("gd[1]", "gp[1]"), ("1[2]", "1[ga]"))
    add("void dereference", E, ("*gv + 1", "*gp + 1"), ("(int)(*gv == 0)", "(int)(*gp == 0)"))
    add("not an lvalue", E, ("($i = 3)", "(g0 = 3)"), ("(f0() = 1)", "(g0 = 1)"), ("(f1(1) += 1)", "(g0 += 1)"), ("(5)++", "g0++"), ("--f0()", "--g0"), ("(g0 + 1)++", "(g0)++"), ("((g0 = 1) = 2)", "(g0 = 2)"), ("(EN1 = 2)", "(g0 = 2)"), ("(g0++)++", "g0++"),
        ("(int)(long)&5", "(int)(long)&g0"), ("(int)(long)&f0()", "(int)(long)&f0"), ("(int)(long)&(g0 + 1)", "(int)(long)&(g0)"), ("(int)(long)&gq.b", "(int)(long)&gq.a"), ("(int)(long)&EN0", "(int)(long)&g0"),
        ("(ga = 0, 1)", "(ga[0] = 0, 1)"), ("(int)(long)&g0++", "(int)(long)&g0"), live=True)
    add("invalid cast", E, ("(int)gq", "(int)gq.a"), ("(int)(double)gp", "(int)(double)*gp"), ("(int)gn", "(int)gn.i"), ("(int)(float)ga", "(int)(float)ga[0]"))
    add("invalid cast", E, ("((Q)1).a", "((Q){1}).a"), live=True)
    add("assignment types", E, ("(g0 = gq, 1)", "(g0 = gq.a, 1)"), ("(gq = 1, 1)", "(gq.a = 1, 1)"), ("f1(gq)", "f1(gq.a)"), ("(gd = gp, 1)", "(gd = *gp, 1)"), ("(g0 = fv(1), 1)", "(g0 = f1(1), 1)"), ("f1((N){0})", "f1((N){0}.i)"))
    add("static assertion", F, ("_Static_assert(0, \"no $n\");", "_Static_assert(1, \"no $n\");"), ("_Static_assert(sizeof(int) == 5);", "_Static_assert(sizeof(int) == 4);"), ("_Static_assert(EN1 != 7, \"x\");", "_Static_assert(EN1 == 7, \"x\");"),
        ("_Static_assert($c < 0, \"\");", "_Static_assert($c > 0, \"\");"))
    add("static assertion", S, ("_Static_assert(0, \"no $n\");", "_Static_assert(1, \"no $n\");"), ("_Static_assert(!($c));", "_Static_assert($c);"))
    add("static assertion", M, ("_Static_assert(sizeof(long) < 8, \"no $n\");", "_Static_assert(sizeof(long) == 8, \"no $n\");"))
    add("constant required", F, ("static int s_$n[] = { 1, f0() };", "static int s_$n[] = { 1, 2 };"), ("int s_$n = g1;", "int s_$n = EN1;"), ("enum { e_$n = g1 };", "enum { e_$n = 3 };"), ("_Static_assert(g1, \"\");", "_Static_assert(1, \"\");"), ("static int s_$n = f1(2);", "static int s_$n = 2;"),
        ("struct s_$n { int b : g1; };", "struct s_$n { int b : 3; };"), ("static int s_$n = 1 / 0 + g1;", "static int s_$n = 1;"), ("static int *s_$n = gp;", "static int *s_$n = ga;"), ("static double s_$n = gd;", "static double s_$n = 1.5;"), ("_Alignas(g1) int s_$n;", "_Alignas(16) int s_$n;"))
    add("constant required", S, ("switch (g0) { case 1: case g1: ; }", "switch (g0) { case 1: case 2: ; }"), ("{ static int s = g1; (void)s; }", "{ static int s = 4; (void)s; }"), ("{ enum { e = g0 }; }", "{ enum { e = 1 }; }"), ("{ static int *s[2] = { ga, gp + 1 }; (void)s; }", "{ static int *s[2] = { ga, ga + 1 }; (void)s; }"),
        ("_Static_assert(g1 > 0, \"\");", "_Static_assert(1 > 0, \"\");"), ("switch (g0) { case 1.5: ; }", "switch (g0) { case 1: ; }"), ("switch (g0) { case 1 ... g1: ; }", "switch (g0) { case 1 ... 4: ; }"), ("{ constexpr int s = g1; (void)s; }", "{ constexpr int s = 1; (void)s; }"))
    add("duplicate case", S, ("switch (g0) { case $c: case 3000: break; case $c: ; }", "switch (g0) { case $c: case 3000: break; case -$c: ; }"), ("switch (g0) { default: break; case 1: default: ; }", "switch (g0) { default: break; case 1: ; }"),
        ("switch (g0) { case 1 ... 5: case 3: ; }", "switch (g0) { case 1 ... 5: case 6: ; }"), ("switch (g0) { case 7: if (g0) { case EN1: ; } }", "switch (g0) { case 8: if (g0) { case EN1: ; } }"), ("switch ((char)g0) { case 'a': case 97: ; }", "switch ((char)g0) { case 'a': case 98: ; }"))
    add("stray label", S, ("default: ;", ";"), ("case 3: ;", ";"), ("{ case 4: g0 = 1; }", "{ g0 = 1; }"))
    add("switch on a non-integer", S, ("switch (gd) { case 1: ; }", "switch ((int)gd) { case 1: ; }"), ("switch (gp) { default: ; }", "switch (*gp) { default: ; }"), ("switch (gq) { default: ; }", "switch (gq.a) { default: ; }"))
    add("undeclared label", S, ("goto no_$n;", "goto l_$n; l_$n: ;"), ("gv = &&no_$n;", "gv = &&l_$n; l_$n: ;"), ("if (g0) goto no_$n;", "if (g0) goto l_$n; l_$n: ;"))
    add("stray jump", S, ("break;", ";"), ("continue;", ";"), ("if (g0) continue;", "if (g0) ;"))
    add("condition type", S, ("if (gq) g0 = 1;", "if (gq.a) g0 = 1;"), ("while (fv(1)) ;", "while (f1(0)) ;"), ("for (; gq; ) ;", "for (; gq.a; ) ;"), ("do ; while (gn);", "do ; while (gn.i);"))
    add("return type", S, ("return gq;", "return gq.a;"), ("return fv(1);", "return f1(1);"))
    add("redeclaration", F, ("int r_$n(void) { return 1; } int r_$n(void) { return 1; }", "int r_$n(void) { return 1; } int s_$n(void) { return 1; }"),
        ("int r_$n; int r_$n(void);", "int r_$n; int s_$n(void);"), ("int r_$n(void); int r_$n;", "int r_$n(void); int s_$n;"),
        ("static int r_$n(void) { return 1; } static int r_$n(void) { return 2; }", "static int r_$n(void) { return 1; } static int r_$n(void);"), ("int r_$n(void) { return 1; } int r_$n(void) { return 2; }", "int r_$n(void) { return 1; } int r_$n(void);"),
        ("static inline int r_$n(int a) { return a; } static inline int r_$n(int a) { return a; }", "static inline int r_$n(int a); static inline int r_$n(int a) { return a; }"), ("inline int r_$n(void) { return 1; } inline int r_$n(void) { return 1; }", "inline int r_$n(void) { return 1; } int r_$n(void);"),
        ("static int r_$n = 1; static int r_$n = 2;", "static int r_$n = 1; static int r_$n;"), ("static Q r_$n = { 1 }; static Q r_$n = { 1 };", "static Q r_$n; static Q r_$n = { 1 };"), ("extern int r_$n = 1; int r_$n = 2;", "extern int r_$n = 1; int r_$n;"),

        ("int r_$n(void); static int r_$n(void) { return 1; }", "static int r_$n(void); int r_$n(void) { return 1; }"), ("int r_$n = 1; int r_$n = 2;", "int r_$n = 1; int r_$n;"),
        ("enum r_$n { e_$n }; enum r_$n { f_$n };", "enum r_$n { e_$n }; enum s_$n { f_$n };")
        )
    # declarations
    add("incomplete type", F, ("struct nd_$n v_$n = {0};", "struct nd_$n { int a; } v_$n = {0};"), ("struct nd_$n a_$n[2];", "struct nd_$n *a_$n[2];"), ("extern struct nd_$n a_$n[];", "extern struct nd_$n *a_$n[];"))
    add("incomplete type", S, ("struct nd_$n v;", "struct nd_$n *v;"), ("{ void v; }", "{ void *v; }"), ("{ struct inc v; }", "{ struct inc *v; }"), ("{ union uinc v[2]; }", "{ union uinc *v[2]; }"), ("{ int v[]; }", "{ int v[2]; }"), ("{ enum nd_$n v; }", "{ enum nd_$n { e_$n } v; }"))
    add("incomplete type", M, ("struct nd_$n m;", "struct nd_$n *m;"), ("void m;", "void *m;"), ("int m(void);", "int (*m)(void);"), ("struct inc m[3];", "struct inc *m[3];"))
    add("void variable", F, ("void v_$n;", "void *v_$n;"), ("void v_$n[3];", "void *v_$n[3];"))
    add("array size", F, ("int a_$n[-1];", "int a_$n[1];"), ("int a_$n[1.5];", "int a_$n[1];"), ("typedef int a_$n[$c - 1000];", "typedef int a_$n[$c];"), ("int a_$n[g1];", "int a_$n[4];"), ("extern int a_$n[2][];", "extern int a_$n[][2];"), ("int f_$n(int a[gq]);", "int f_$n(int a[3]);"))
    add("array size", S, ("{ int a[-2]; }", "{ int a[2]; }"), ("{ int a[gd]; }", "{ int a[5]; }"), ("{ int a[gp]; }", "{ int a[5]; }"), ("{ static int a[g1]; }", "{ static int a[3]; }"), ("{ int a[g1] = { 1 }; }", "{ int a[3] = { 1 }; }")
        )
    add("function types", F, ("int f_$n(void)[2];", "int *f_$n(void);"), ("int a_$n[2](void);", "int (*a_$n[2])(void);"), ("int f_$n(void)(void);", "int (*f_$n(void))(void);")
        )
    add("specifiers", F, ("long char v_$n;", "long v_$n;"), ("signed double v_$n;", "signed v_$n;"), ("short long v_$n;", "short v_$n;"), ("unsigned Q v_$n;", "unsigned v_$n;"), ("int double v_$n;", "double v_$n;"), ("long long long v_$n;", "long long v_$n;"), ("typedef static int v_$n;", "typedef int v_$n;"),
        ("unsigned signed v_$n;", "unsigned v_$n;"), ("_Bool int v_$n;", "_Bool v_$n;"), ("struct Q int v_$n;", "struct Q v_$n;"), ("void v_$n(static int a);", "void v_$n(int a);"), ("_Alignas(3) int v_$n;", "_Alignas(4) int v_$n;"))
    add("specifiers", M
        )
    add("bit-fields", M, ("int b : -1;", "int b : 1;"), ("int b : 33;", "int b : 32;"), ("double b : 3;", "int b : 3;"), ("int *b : 3;", "int b : 3;"), ("_Bool b : 9;", "_Bool b : 1;"), ("Q b : 2;", "int b : 2;"), ("char b : 9;", "char b : 8;"), ("int b : 1.5;", "int b : 1;"), ("int b : g1;", "int b : 4;")
        )
    add("flexible members", M, ("int m[]; int n;", "int m[2]; int n;"))
    add("initializers", S, ("{ int a[2] = 5; }", "{ int a[2] = { 5 }; }"), ("{ char a[3] = ga; }", "{ char a[3] = \"ab\"; }"), ("{ Q q = 1; }", "{ Q q = { 1 }; }"), ("{ Q q = { .zz = 1 }; }", "{ Q q = { .a = 1 }; }"), ("{ int a[2] = { [2] = 1 }; }", "{ int a[2] = { [1] = 1 }; }"),
        ("{ int a[2] = { [-1] = 1 }; }", "{ int a[2] = { [0] = 1 }; }"), ("{ int a = { .x = 1 }; }", "{ int a = { 1 }; }"), ("{ int a[] = { .x = 1 }; }", "{ int a[] = { 1 }; }"), ("{ Q q = { [0] = 1 }; }", "{ Q q = { 1 }; }"), ("{ int a[3] = { [2 ... 1] = 4 }; }", "{ int a[3] = { [1 ... 2] = 4 }; }"),
        ("{ int a[2] = { [g1] = 1 }; }", "{ int a[2] = { [1] = 1 }; }"), ("{ int *p = L\"a\"; int a[1] = \"a\"; }", "{ int *p = L\"a\"; char a[1] = \"a\"; }"), ("{ int a[2] = ga; }", "{ int *a = ga; }"), ("{ Q q = { .arr = { [4] = 1 } }; }", "{ Q q = { .arr = { [3] = 1 } }; }"),
        ("{ int a = gq; }", "{ int a = gq.a; }"), ("{ double d = gp; }", "{ double d = *gp; }"))
    add("initializers", F, ("int i_$n[2] = 5;", "int i_$n[2] = { 5 };"), ("Q i_$n = 1;", "Q i_$n = { 1 };"), ("Q i_$n = { .zz = 1 };", "Q i_$n = { .a = 1 };"), ("int i_$n[2] = { [2] = 1 };", "int i_$n[2] = { [1] = 1 };"), ("static Q i_$n[2] = { [0].zz = 1 };", "static Q i_$n[2] = { [0].a = 1 };"),
        ("static Q i_$n = { .arr[4] = 1 };", "static Q i_$n = { .arr[3] = 1 };"), ("static double i_$n = &g0;", "static double i_$n = 0;"), ("static int i_$n = gq;", "static int i_$n = 1;"))
    add("generic selection", E, ("_Generic(g0, long: 1, char: 2)", "_Generic(g0, int: 1, char: 2)"), ("_Generic(gq, int: 1)", "_Generic(gq, Q: 1)"), ("_Generic(gp, int: 1, void *: 2)", "_Generic(gp, int *: 1, void *: 2)"))
    add("auto", S, ("{ auto x; }", "{ auto x = 1; }"), ("{ auto x = nope_$n; }", "{ auto x = g0; }"), ("{ auto x[2] = { 1, 2 }; }", "{ int x[2] = { 1, 2 }; }")) if False else None
    # syntax
    add("syntax", S, ("g0 = ;", "g0 = 1;"), ("g0 = 1 +;", "g0 = 1 + 1;"), ("if g0 ;", "if (g0) ;"), ("f1(1;", "f1(1);"), ("ga[1;", "ga[1];"), ("g0 = (1 + 2;", "g0 = (1 + 2);"), ("do g0 = 1; while (0) g0 = 2;", "do g0 = 1; while (0); g0 = 2;"), ("for (g0 = 1; g0) ;", "for (g0 = 1; g0;) ;"),
        ("else ;", ";"), ("int 3x;", "int x3;"), ("int = 4;", "int x = 4;"), ("g0 = 1 2;", "g0 = 1; 2;"), ("struct { int a } v;", "struct { int a; } v;"), ("g0 = gq.;", "g0 = gq.a;"), ("g0 = gq.3;", "g0 = gq.a;"), ("goto 3;", "goto l_$n; l_$n:;"), ("g0 = g0 ? 1;", "g0 = g0 ? 1 : 2;"), ("g0 = )1(;", "g0 = (1);"),
        ("g0 ++ 1;", "g0 ++;"), ("sizeof;", "sizeof g0;"), ("g0 = sizeof(;", "g0 = sizeof(int);"), ("int x[3;", "int x[3];"), ("while () ;", "while (0) ;"), ("switch () { }", "switch (1) { }"), ("return int;", "return 1;"), ("enum { };", "enum { z_$n };"), ("g0 = {1};", "g0 = 1;"), ("(int) = 3;", "g0 = 3;"), ("g0 = @;", "g0 = 1;"), ("g0 = `1;", "g0 = 1;"),
        ("g0 = int;", "g0 = 1;"), ("g0 = T0;", "g0 = (T0)1;"), ("int;;;; char 5;", "int;;;; char c5;"), ("g0 = 1.2.3;", "g0 = 1.2;"), ("g0 = 0x;", "g0 = 0x1;"), ("g0 = 12abc;", "g0 = 12;"), ("g0 = 0b12;", "g0 = 0b11;"), ("g0 = 1e;", "g0 = 1e1;"), ("g0 = 1uu;", "g0 = 1u;"), ("g0 = 08;", "g0 = 07;") if False else ("g0 = 1lul;", "g0 = 1ull;"), ("g0 = '';", "g0 = ' ';"), ("g0 = 'a;", "g0 = 'a';"),
        ("gv = \"abc;", "gv = \"abc\";"), ("asm(1);", "asm(\"\");"), ("asm(\"\" : : : 3);", "asm(\"\" : : : \"rax\");"), ("_Generic(1);", "_Generic(1, int: 2);"), ("gv = L\"a\" u\"b\";", "gv = L\"a\" L\"b\";"))
    add("syntax", F, ("int v_$n = ;", "int v_$n = 1;"), ("int v_$n(int;", "int v_$n(int);"), ("int v_$n[3;", "int v_$n[3];"), ("if (1) ;", ";"), ("int v_$n(void) return 1;", "int v_$n(void) { return 1; }"), ("return 1;", "int y_$n;"), ("}", ";"), ("int v_$n, ;", "int v_$n;"), 
        ("int v_$n { 1 };", "int v_$n = { 1 };"), ("typedef int;; typedef 3;", "typedef int;; typedef int t_$n;"), ("nosuchtype_$n v_$n;", "T0 v_$n;"), ("int f_$n(nosuchtype_$n a);", "int f_$n(T0 a);"), ("enum { a_$n b_$n };", "enum { a_$n, b_$n };"), ("extern int 1;", "extern int v_$n;"), ("int *;; * v_$n;", "int *v_$n;"), ("int f_$n(..., int a);", "int f_$n(int a, ...);"))
    add("syntax", M, ("int m = 1;", "int m;"), ("int 3;", "int m3;"), ("int m[;", "int m[1];"))
    # directives
    add("#error", D, ("#error wrong $n", "#if 0\n#error wrong $n\n#endif"), ("# error", "# if 0\n# error\n#endif"))
    add("bad directive", D, ("#foo bar", "#if 0\n#foo bar\n#endif"), ("#if", "#if 1\n#endif"), ("#ifdef", "#ifdef X\n#endif"), ("#define", "#define X_$n"), ("#define 3 4", "#define X_$n 4"), ("#define M_$n(a", "#define M_$n(a)"), ("#define M_$n(1) x", "#define M_$n(a) x"), ("#define M_$n(a,b) x", "#define M_$n(a,b) x"),
        ("#undef", "#undef X"), ("#undef 1", "#undef X"), ("#include", "#if 0\n#include\n#endif"), ("#include \"nofile_$n.h\"", "#if 0\n#include \"nofile_$n.h\"\n#endif"), ("#include <nofile_$n.h>", "#if __has_include(<nofile_$n.h>)\n#endif"), ("#include 3", "#if 0\n#include 3\n#endif"), ("#include <abc", "#if 0\n#include <abc\n#endif"),
        ("#line x", "#if 0\n#line x\n#endif"), ("#elif 1", "#if 0\n#elif 1\n#endif"), ("#else", "#if 0\n#else\n#endif"), ("#endif", "#if 0\n#endif"), ("#elifdef X", "#if 0\n#elifdef X\n#endif"), ("#if 1\n#else\n#else\n#endif", "#if 1\n#else\n#endif"), ("#if 1\n#else\n#elif 1\n#endif", "#if 1\n#elif 1\n#else\n#endif"),
        ("#if 1 +", "#if 1 + 1\n#endif"), ("#if (1", "#if (1)\n#endif"), ("#if 1 1", "#if 1\n#endif"), ("#if 1.5", "#if 1\n#endif"), ("#if \"a\"", "#if 'a'\n#endif"), ("#if defined", "#if defined X\n#endif"), ("#if defined(", "#if defined(X)\n#endif"), ("#if 1 ? 2", "#if 1 ? 2 : 3\n#endif"), ("#if 0\n#elif\n#endif", "#if 0\n#elif 1\n#endif"),
        ("#if 1/0", "#if 0 && 1/0\n#endif") if False else ("#if = 1", "#if 2 == 1\n#endif"), ("#define C_$n ## x\nint C_$n;", "#define C_$n x_$n\nint C_$n;"), ("#define C_$n x ##\nint C_$n;", "#define C_$n x_##$n\nint C_$n;"), ("#define C_$n(a) #b\nextern char z_$n[sizeof C_$n(1)];", "#define C_$n(a) #a\nextern char z_$n[sizeof C_$n(1)];"), ("#define C_$n(a) a ##\nint C_$n(x_$n);", "#define C_$n(a) a##1\nint C_$n(x_$n);"), ("#define C_$n(...) ## __VA_ARGS__\nint C_$n(x_$n);", "#define C_$n(a, ...) a , ## __VA_ARGS__\nint C_$n(x_$n, y_$n);"),
        ("#embed \"nofile_$n\"", "#if 0\n#embed \"nofile_$n\"\n#endif"), ("#if __has_include", "#if __has_include(<x>)\n#endif"), ("#if __has_include(x_$n", "#if __has_include(\"x_$n\")\n#endif"))
    add("macro call", S, ("#define MC_$n(a) a\ng0 = MC_$n(1, 2);", "#define MC_$n(a) a\ng0 = MC_$n(1);"), ("#define MC_$n(a, b) a b\ng0 = MC_$n(1);", "#define MC_$n(a, b) a b\ng0 = MC_$n(1,);"), ("#define MC_$n() 1\ng0 = MC_$n(1);", "#define MC_$n() 1\ng0 = MC_$n();"), ("#define MC_$n(a, ...) a\ng0 = MC_$n();", "#define MC_$n(a, ...) a 1\ng0 = MC_$n();"))
    add("paste", S, ("#define MP_$n(a, b) a##b\ng0 = MP_$n(+, 1);", "#define MP_$n(a, b) a##b\ng0 = MP_$n(1, 1);"), ("#define MP_$n(a, b) a##b\ng0 = g0 MP_$n(., x);", "#define MP_$n(a, b) a##b\ng0 = g0 MP_$n(+, =) 1;"[:0] or "#define MP_$n(a, b) a##b\ng0 = MP_$n(g, 0);"))
    add("missing end", F, ("int v_$n", "int v_$n;"), ("struct v_$n { int a; }", "struct v_$n { int a; };"), ("int f_$n(void)", "int f_$n(void);"), ("int v_$n = 3", "int v_$n = 3;"), ("enum { e_$n }", "enum { e_$n };"), after=True)
    add("missing end", M, ("int m", "int m;"), ("struct { int m; }", "struct { int m; };"), after=True)
    add("missing end", S, ("g0 = 1", "g0 = 1;"), ("do g0 = 2; while (0)", "do g0 = 2; while (0);"), ("break_$n:", "break_$n: ;"), ("return 0", "return 0;"), after=True)
    add("unterminated", D, ("#if 1", ""), ("#ifdef X", ""), ("#if 0\n#else", ""), ("/* never", "/* ever */"), after=True)
    add("unterminated", S, ("{", "{}"), ("#define MU_$n(a) a\nMU_$n(1", "#define MU_$n(a) a\nMU_$n(1);"), ("g0 = f1(", ";"), after=True)
    # attributes and specifiers
    add("cleanup function", S, ("{ int v __attribute__((cleanup(nofn_$n))) = 1; }", "{ int v __attribute__((cleanup(fcl))) = 1; }"), ("{ int v __attribute__((cleanup(g0))); }", "{ int v __attribute__((cleanup(fcl))); }"), ("{ int v __attribute__((cleanup)); }", "{ int v __attribute__((cleanup(fcl))); }"))
    add("attributes", F, ("extern int v_$n __attribute__((section(\"sa\"))); int v_$n __attribute__((section(\"sb\")));", "extern int v_$n __attribute__((section(\"sa\"))); int v_$n __attribute__((section(\"sa\")));"), ("__attribute__((3)) int v_$n;", "__attribute__((unused)) int v_$n;"),
        ("__attribute__((unused) int v_$n;", "__attribute__((unused)) int v_$n;"), ("__attribute__(unused) int v_$n;", "__attribute__((unused)) int v_$n;"), ("int v_$n __attribute__((aligned(3)));", "int v_$n __attribute__((aligned(4)));"), ("int v_$n __attribute__((aligned(g1)));", "int v_$n __attribute__((aligned(8)));"))
    add("attributes", F, ("[[3]] int v_$n;", "[[maybe_unused]] int v_$n;"), ("[[maybe_unused] int v_$n;", "[[maybe_unused]] int v_$n;"), ("[[gnu::]] int v_$n;", "[[gnu::unused]] int v_$n;"), flags="-std=c23")
    add("constexpr", F, ("constexpr int v_$n;", "constexpr int v_$n = 1;"), ("int f_$n(constexpr int a);", "int f_$n(int a);"), ("constexpr int v_$n = g1;", "constexpr int v_$n = 3;"), ("constexpr int v_$n = f1(1);", "constexpr int v_$n = EN1;"), ("constexpr unsigned char v_$n = 300;", "constexpr unsigned char v_$n = 30;"),
        ("constexpr int v_$n = 1.5;", "constexpr int v_$n = 1;"), ("constexpr unsigned v_$n = -1;", "constexpr unsigned v_$n = 1;"), flags="-std=c23")
    add("constexpr", S, ("{ constexpr int v; }", "{ constexpr int v = 2; }"), ("{ static constexpr int v; }", "{ static constexpr int v = 2; }"), ("{ constexpr int v = g0; }", "{ constexpr int v = 4; }"), ("{ constexpr int *v = &g0 + f0(); }", "{ constexpr int *v = 0; }"), ("{ int l = 1; constexpr int v = l; }", "{ const int l = 1; constexpr int v = 1; }"), flags="-std=c23")
    add("constexpr", M, flags="-std=c23")
    add("alignas", F, ("int f_$n(_Alignas(8) int a);", "int f_$n(int a);"), ("_Alignas(g1) int v_$n;", "_Alignas(8) int v_$n;"), ("_Alignas(-4) int v_$n;", "_Alignas(4) int v_$n;"))
    add("alignas", E, ("(int)sizeof(_Alignas(8) int)", "(int)sizeof(int)"), ("(int)(_Alignas(4) int)1", "(int)(int)1"))
    add("specifiers", F, ("int struct Q v_$n;", "struct Q v_$n;"), ("long enum en v_$n;", "enum en v_$n;"), ("int __typeof__(g0) v_$n;", "__typeof__(g0) v_$n;"), ("unsigned __typeof__(g0) v_$n;", "unsigned v_$n;"), ("struct Q union N v_$n;", "struct Q v_$n;"), ("T0 long v_$n;", "T0 v_$n;"), ("float char v_$n;", "float v_$n;"),
        ("void int v_$n(int);", "void v_$n(int);"), ("_Bool unsigned v_$n;", "_Bool v_$n;"), ("short short v_$n;", "short v_$n;"), ("signed signed int v_$n;", "signed int v_$n;"), ("typedef extern int v_$n;", "extern int v_$n;"), ("short double v_$n;", "long double v_$n;"),
        ("long float v_$n;", "float v_$n;"), ("char char v_$n;", "char v_$n;"), ("long long double v_$n;", "long double v_$n;"))
    add("auto", S, ("{ auto x; }", "{ auto x = 1; }"), ("{ auto x[2] = { 1, 2 }; }", "{ int x[2] = { 1, 2 }; }"), ("{ auto x = nope_$n; }", "{ auto x = g0; }"), ("{ auto x = { 1, 2 }; }", "{ auto x = 1; }"), flags="-std=c23")
    add("typedef", F, ("typedef int *;", "typedef int *t_$n;"), ("typedef int (*)(void);", "typedef int (*t_$n)(void);"), ("typedef int t_$n = 3;", "typedef int t_$n;"), ("typedef int t_$n, ;", "typedef int t_$n;"), ("typedef int t_$n { };", "typedef int t_$n;"))
    add("tags", F, ("enum Q *v_$n;", "struct Q *v_$n;"), ("struct t_$n; enum t_$n { e_$n };", "struct t_$n; enum u_$n { e_$n };"), ("enum e_$n { a_$n = };", "enum e_$n { a_$n = 1 };"), ("enum e_$n { a_$n = 1.5 };", "enum e_$n { a_$n = 1 };"),
        ("enum en3_$n; enum en3_$n v_$n;", "enum en3_$n { z_$n }; enum en3_$n v_$n;"))
    add("tags", S, ("{ struct t { int a; }; enum t { e_$n }; }", "{ struct t { int a; }; enum u { e_$n }; }"))
    add("enum range", F, ("enum e_$n : char { a_$n = 300 };", "enum e_$n : char { a_$n = 100 };"), ("enum e_$n : unsigned { a_$n = -1 };", "enum e_$n : unsigned { a_$n = 1 };"), ("enum e_$n : unsigned char { a_$n = 255, b_$n };", "enum e_$n : unsigned char { a_$n = 254, b_$n };"), flags="-std=c23")
    add("incomplete type", S, ("{ static int v[]; }", "{ static int v[3]; }"), ("{ static struct inc v; }", "{ static struct inc *v; }"), ("{ void v[2]; }", "{ void *v[2]; }"), ("{ int v[][2]; }", "{ int v[1][2]; }"), ("{ struct inc v = {0}; }", "{ struct inc *v = {0}; }"))
    add("incomplete type", E, ("((struct inc){0}, 1)", "((Q){0}, 1)"), ("(int)sizeof((int[]){})", "(int)sizeof((int[]){1})"), ("(int)sizeof(int[])", "(int)sizeof(int[2])"), ("(int)sizeof(gi[0])", "(int)sizeof(gp[0])"))
    add("incomplete type", F, ("int a_$n[2][] = { { 1 } };", "int a_$n[2][1] = { { 1 } };"), ("typedef struct inc t_$n[2];", "typedef struct inc *t_$n[2];"))
    add("initializers", S, ("{ int a[3] = { [1 ... 3] = 4 }; }", "{ int a[3] = { [1 ... 2] = 4 }; }"), ("{ Q q = { . = 1 }; }", "{ Q q = { .a = 1 }; }"), ("{ Q q = { .\"a\" = 1 }; }", "{ Q q = { .a = 1 }; }"), ("{ int a[2] = { [0 = 1 }; }", "{ int a[2] = { [0] = 1 }; }"), ("{ int a[2] = { 1; }; }", "{ int a[2] = { 1, }; }"), ("{ int a[2] = { 1 2 }; }", "{ int a[2] = { 1, 2 }; }"),
        ("{ int a[2][2] = { [0][2] = 1 }; }", "{ int a[2][2] = { [0][1] = 1 }; }"), ("{ Q q = { .next.a = 1 }; }", "{ Q q = { .next = 0 }; }"), ("{ N n = { .i.x = 1 }; }", "{ N n = { .i = 1 }; }"), ("{ int a[2] = (1, 2); }", "{ int a[2] = { 1, 2 }; }"))
    add("initializers", F, ("int i_$n[3] = { [1 ... 3] = 1 };", "int i_$n[3] = { [1 ... 2] = 1 };"), ("static char i_$n = (char)(long)&g0;", "static long i_$n = (long)&g0;"), ("static int i_$n = (int)(long)&g0;", "static long i_$n = (long)&g0;"), ("static float i_$n = (long)&g0;", "static float i_$n = 1;"), ("static long i_$n = (long)&g0 * 2;", "static long i_$n = (long)&g0 + 2;"),
        ("static long i_$n = -(long)&g0;", "static long i_$n = (long)&g0;"), ("static int *i_$n = gp;", "static int *i_$n = ga;"), ("static int *i_$n = gp + 1;", "static int *i_$n = ga + 1;"), ("static int i_$n = *ga;", "static int i_$n = 2;"), ("static int i_$n = fq().a;", "static int i_$n = 2;"),
        ("static Q *i_$n = gq.next;", "static Q *i_$n = &gq;"), ("static int i_$n = g0++;", "static int i_$n = 1;"), ("static int i_$n = g0 ? 1 : 2;", "static int i_$n = EN1 ? 1 : 2;"), ("static double i_$n = gd + 1;", "static double i_$n = 1.5 + 1;"), ("static int *i_$n = &ga[g0];", "static int *i_$n = &ga[1];"))
    add("static assertion", F, ("_Static_assert(1, 3);", "_Static_assert(1, \"3\");"), ("_Static_assert(1.5 == 2, \"\");", "_Static_assert(2 == 2, \"\");"), ("_Static_assert(\"a\" == 0, \"\");", "_Static_assert(1, \"\");"), ("_Static_assert();", "_Static_assert(1);"), ("_Static_assert(1, );", "_Static_assert(1, \"\");"))
    add("stray jump", S, ("case 1: ;", ";"), ("default: ;", ";"), ("{ case 2 ... 3: g0 = 1; }", "{ g0 = 1; }"))
    add("switch", S, ("switch (g0) { case 1: case 1: ; }", "switch (g0) { case 1: case 2: ; }"), ("switch (g0) { case 1 ... 4: ; case 3: ; }", "switch (g0) { case 1 ... 4: ; case 5: ; }"), ("switch (g0) { default: ; default: ; }", "switch (g0) { default: ; }"), ("switch (g0) { case g0: ; }", "switch (g0) { case 7: ; }"),
        ("switch (gd) { case 1: ; }", "switch ((int)gd) { case 1: ; }"), ("switch (gp) { case 1: ; }", "switch (*gp) { case 1: ; }"), ("switch (gq) { default: ; }", "switch (gq.a) { default: ; }"), ("switch (g0) { case 1.5: ; }", "switch (g0) { case 1: ; }"), ("switch (g0) { case 1 ;; }", "switch (g0) { case 1: ; }"), ("switch (g0) { case: ; }", "switch (g0) { case 0: ; }"))
    add("label", F, ("static void *p_$n = &&l_$n;", "static void *p_$n = &g0;"), ("int a_$n[({ 3; })];", "int a_$n[3];"), ("static int s_$n = ({ 1; });", "static int s_$n = 1;"))
    add("label", S, ("goto *g0;", "goto *gv;") if False else ("goto ;", "goto l_$n; l_$n: ;"), ("goto &gv;", "goto *gv;"))
    add("jump into scope", S, ("goto l_$n; { int v[g0 + 3]; l_$n: v[0] = 1; }", "{ int v[g0 + 3]; goto l_$n; l_$n: v[0] = 1; }"), ("switch (g0) { int v[g0 + 2]; case 1: v[0] = 1; }", "switch (g0) { int v[2]; case 1: v[0] = 1; }"), ("{ goto l_$n; int v[g0 + 3]; l_$n: ; }", "{ int v[g0 + 3]; goto l_$n; l_$n: ; }"))
    add("flexible members", F, ("union u_$n { int a; int m[]; };", "union u_$n { int a; int m[1]; };"), ("struct s_$n { int a; int m[][]; };", "struct s_$n { int a; int m[][2]; };"))
    add("array size", F, ("extern char a_$n[0x7fffffffffffffff][4];", "extern char a_$n[0x7fff][4];"), ("typedef int a_$n[2][g1];", "typedef int a_$n[2][2];"), ("int a_$n[sizeof(int) * -1L];", "int a_$n[sizeof(int)];"), ("extern int a_$n[$c][-$c];", "extern int a_$n[$c][$c];"))
    add("generic selection", E, ("_Generic(g0, int: 1, FT: 2)", "_Generic(g0, int: 1, FT *: 2)"), ("_Generic(g0, int 1)", "_Generic(g0, int: 1)"),
        ("_Generic(g0, int:)", "_Generic(g0, int: 3)"), ("_Generic(, int: 3)", "_Generic(1, int: 3)"), ("_Generic(g0, 3: 3)", "_Generic(g0, int: 3)"))
    add("compound literal", E, ("((int[g0 + 1]){1})[0]", "((int[3]){1})[0]"), ("((nosuch_$n){1}, 1)", "((T0){1}, 1)"))
    add("redeclaration", F, ("int f_$n(void); int f_$n(int a);", "int f_$n(void); int g_$n(int a);"), ("int v_$n, f_$n(void) { return 1; }", "int v_$n; int f_$n(void) { return 1; }"),
        ("static int v_$n; int v_$n = 1; int v_$n = 2;", "static int v_$n; static int w_$n = 1;"))
    add("function types", F, ("int (int);", "int f_$n(int);"), ("typedef int A_$n[2]; A_$n f_$n(void);", "typedef int A_$n[2]; A_$n *f_$n(void);"), ("int f_$n(void a);", "int f_$n(void *a);"),
        ("int f_$n(int) = 3;", "int f_$n(int);"), ("int f_$n(a b);", "int f_$n(int b);"), ("int f_$n(int a) int b; { return a; }", "int f_$n(int a) { return a; }"), ("int *(f_$n(void))[3];", "int (*f_$n(void))[3];"))
    add("function types", S, ("{ int (int); }", "{ int f_$n(int); }"))
    add("builtin operand", E, ("(int)__builtin_offsetof(int, a)", "(int)__builtin_offsetof(Q, a)"), ("(int)__builtin_offsetof(Q)", "(int)__builtin_offsetof(Q, a)"), ("__builtin_types_compatible_p(int, 3)", "__builtin_types_compatible_p(int, int)"), ("__builtin_expect()", "__builtin_expect(1, 1)"),
        ("__builtin_constant_p()", "__builtin_constant_p(1)"), ("(int)sizeof(fv(1) + 1)", "(int)sizeof(f1(1) + 1)"), ("(int)_Alignof(FT)", "(int)_Alignof(FT *)"), ("(int)_Alignof(int[])", "(int)_Alignof(int[2])"))
    # directives
    add("bad directive", D, ("# 3 x", "#if 0\n# 3 x\n#endif"), ("#line 3 x", "#if 0\n#line 3 x\n#endif"), ("#line -1", "#if 0\n#line -1\n#endif"), ("#line", "#if 0\n#line\n#endif"), ("#elifndef X", "#if 0\n#elifndef X\n#endif"), ("#if 1\n#else\n#elifdef X\n#endif", "#if 1\n#elifdef X\n#else\n#endif"), ("#if 1\n#else\n#elifndef X\n#endif", "#if 1\n#elifndef X\n#else\n#endif"),
        ("#define M_$n(...a) x", "#define M_$n(a...) x"), ("#define M_$n(a...b) x", "#define M_$n(a,b...) x"), ("#define M_$n(a,) x", "#define M_$n(a,b) x"), ("#define M_$n(,a) x", "#define M_$n(b,a) x"), ("#define M_$n(a b) x", "#define M_$n(a, b) x"), ("#define M_$n(..., a) x", "#define M_$n(a, ...) x"), ("#define M_$n(a, \"s\") x", "#define M_$n(a, s) x"),
        ("#ifndef", "#ifndef X\n#endif"), ("#ifdef 3", "#ifdef X3\n#endif"), ("#ifndef +", "#ifndef X\n#endif"), ("#if 0\n#elifdef\n#endif", "#if 0\n#elifdef X\n#endif"), ("#if 0\n#elif 1 1\n#endif", "#if 0\n#elif 1\n#endif"), ("#if 1 == \n#endif", "#if 1 == 1\n#endif"), ("#if ()\n#endif", "#if (1)\n#endif"), ("#if x y\n#endif", "#if x\n#endif"),
        ("#if 1 2\n#endif", "#if 1\n#endif"), ("#if 1 +* 2\n#endif", "#if 1 + 2\n#endif"), ("#if 0x\n#endif", "#if 0x1\n#endif"), ("#if 1.0\n#endif", "#if 1\n#endif"), ("#if a.b\n#endif", "#if a\n#endif"), ("#if defined 3\n#endif", "#if defined X3\n#endif"), ("#if defined(X\n#endif", "#if defined(X)\n#endif"), ("#if defined()\n#endif", "#if defined(X)\n#endif"),
        ("#if 1 ? 2 : \n#endif", "#if 1 ? 2 : 3\n#endif"), ("#if 1 : 2\n#endif", "#if 1 ? 1 : 2\n#endif"), ("#if (int)1\n#endif", "#if (1)\n#endif"), ("#if 1 = 1\n#endif", "#if 1 == 1\n#endif"), ("#if ++1\n#endif", "#if + +1\n#endif"), ("#if {\n#endif", "#if 0\n#endif"), ("#if __has_include()\n#endif", "#if __has_include(<x>)\n#endif"),
        ("#if X_$n(\n#endif", "#if X_$n\n#endif"), ("#include \"a_$n.h", "#if 0\n#include \"a_$n.h\n#endif"), ("#include <>", "#if 0\n#include <>\n#endif"), ("#include x_$n", "#if 0\n#include x_$n\n#endif"), ("#define E_$n\n#include E_$n", "#if 0\n#include E_$n\n#endif"), ("#error", "#if 0\n#error\n#endif"))
    add("at a dynamic macro", F, *[("int v_$n = 1 %s;" % m, "int v_$n = 1 + !%s;" % m)
                                  for m in ("__STDC_VERSION__", "__LINE__", "__COUNTER__")])
    add("at a dynamic macro", S, *[("{ %s int x; }" % m, "{ int x = (int)sizeof(%s); (void)x; }" % m) for m in ("__STDC_VERSION__", "__LINE__", "__COUNTER__")])
    add("_Pragma", D, ("_Pragma(1)", "_Pragma(\"foo\")"), ("_Pragma()", "_Pragma(\"foo\")"), ("_Pragma(foo)", "_Pragma(\"foo\")"))
    add("macro call", D, ("#define G_$n(a, b) a b\nG_$n(int, v_$n, 3);", "#define G_$n(a, b) a b\nG_$n(int, v_$n);"), ("#define G_$n(a) a\nG_$n(int, v_$n);", "#define G_$n(a...) a\nG_$n(int v_$n);"))
    add("embed", D, ("static const char v_$n[] = {\n#embed \"/dev/null\" limit(2) limit(3)\n};", "static const char v_$n[] = {\n#embed \"/dev/null\" limit(2)\n};"), ("static const char v_$n[] = {\n#embed \"/dev/null\" limit(-1)\n};", "static const char v_$n[] = {\n#embed \"/dev/null\" limit(1)\n};"), ("static const char v_$n[] = {\n#embed \"/dev/null\" frob(1)\n};", "static const char v_$n[] = {\n#embed \"/dev/null\" limit(1) prefix(1,)\n};"),
        ("static const char v_$n[] = {\n#embed \"/dev/null\" limit(x y)\n};", "static const char v_$n[] = {\n#embed \"/dev/null\" limit(x + 1)\n};"), ("static const char v_$n[] = {\n#embed \"/dev/null\" limit(1\n};", "static const char v_$n[] = {\n#embed \"/dev/null\" limit(1)\n};"), ("static const char v_$n[] = {\n#embed \"/dev/null\" limit\n};", "static const char v_$n[] = {\n#embed \"/dev/null\" limit(3)\n};"),
        ("static const char v_$n[] = {\n#embed \"/dev/null\" prefix(1,) prefix(2,) limit(1)\n};", "static const char v_$n[] = {\n#embed \"/dev/null\" prefix(1,) suffix(,2) limit(1)\n};"), trust=True)
    # inline asm
    add("asm", S, ("asm(\"\" : : \"r\"(g0) : \"nosuchreg\");", "asm(\"\" : : \"r\"(g0) : \"rcx\");"), ("asm(\"mov %3, %0\" : \"=r\"(g0) : \"r\"(1));", "asm(\"mov %1, %0\" : \"=r\"(g0) : \"r\"(1));"), ("asm(\"mov %[nope], %0\" : \"=r\"(g0) : [yes] \"r\"(1));", "asm(\"mov %[yes], %0\" : \"=r\"(g0) : [yes] \"r\"(1));"),
        ("asm(\"\" : \"=a\"(g0) : \"7\"(1));", "asm(\"\" : \"=a\"(g0) : \"0\"(1));"), ("asm(\"\" : \"=r\"(g0 + 1));", "asm(\"\" : \"=r\"(g0));"), ("asm(\"\" : : \"r\"(gq));", "asm(\"\" : : \"r\"(gq.a));"), ("asm(\"\" : : \"\\001\"(g0));", "asm(\"\" : : \"r\"(g0));"),
        ("asm(\"\" : \"=r\"(g0) : \"r\");", "asm(\"\" : \"=r\"(g0) : \"r\"(1));"), ("asm(\"\" : \"=r\" g0);", "asm(\"\" : \"=r\"(g0));"), ("asm(\"\" : : : \"memory\" \"cc\", );", "asm(\"\" : : : \"memory\", \"cc\");"), ("asm(\"\" : : [x \"r\"(1));", "asm(\"\" : : [x] \"r\"(1));"),
        ("asm goto(\"jmp %l0\" : : \"r\"(1) : : l_$n); l_$n: ;", "asm goto(\"jmp %l1\" : : \"r\"(1) : : l_$n); l_$n: ;"), ("asm goto(\"\" : : : : l_$n);", "asm goto(\"\" : : : : l_$n); l_$n: ;"), live=True, trust=True)
    # defer
    add("defer", S, ("goto l_$n; { defer g0++; l_$n: ; }", "goto l_$n; { l_$n: ; defer g0++; }"), ("switch (g0) { defer g0++; case 2: ; }", "switch (g0) { case 2: ; defer g0++; }"), ("switch (g0) { defer g0++; default: ; }", "switch (g0) { default: ; defer g0++; }"), ("defer { goto l_$n; }\nl_$n: ;", "defer { goto l_$n; l_$n: ; }"),
        flags="-fdefer-ts", trust=True)
    return L


KINDS = kinds()
MARK = "\x01"


class Gen:
    def __init__(self, s):
        self.s, self.n = s, 0

    def name(self):
        self.n += 1
        return "%d" % self.n

    def fill(self, t, nm, i, c):
        return t.replace("$n", nm).replace("$i", i).replace("$c", c)

    # expression contexts, ending in a statement; \x01 stands for the expression
    def ectx(self, live=False):
        s = self.s
        if live:        # only where code is generated for the value: the compiler looks at lvalues when it generates code
            return s.choice(["g0 = " + MARK + ";", "if (" + MARK + ") g0 = 2;", "g0 = f2(1, " + MARK + ");", "return " + MARK + ";", "while (" + MARK + ") break;", "g0 = ga[(" + MARK + ") & 3];", "g0 = g0 ? " + MARK + " : 2;",
                             "{ int v = " + MARK + "; (void)v; }", "{ Q q = { .a = " + MARK + " }; (void)q; }", "g0 = ({ g0++; " + MARK + "; });", "switch (" + MARK + ") { default: ; }", "g0 = g0 && (" + MARK + ");", "for (; " + MARK + "; g0++) break;"])
        return s.choice([MARK + ";", "g0 = " + MARK + ";", "(void)(" + MARK + ");", "if (" + MARK + ") g0 = 2;", "while (" + MARK + ") break;", "for (g0 = 1; " + MARK + ";) break;", "for (" + MARK + "; g0;) break;", "for (; g0; " + MARK + ") break;",
                         "g0 = f2(1, " + MARK + ");", "g0 = ga[(" + MARK + ") & 3];", "g0 = g0 ? " + MARK + " : 2;", "g0 = g0 ? 1 : (" + MARK + ");", "g0 = 0 && (" + MARK + ");", "g0 = 1 || (" + MARK + ");", "g0 = (3, " + MARK + ");", "{ int v = " + MARK + "; (void)v; }",
                         "{ int v[2] = { 1, " + MARK + " }; (void)v; }", "{ Q q = { .a = " + MARK + " }; (void)q; }", "switch (" + MARK + ") { default: ; }", "return " + MARK + ";", "(void)sizeof(" + MARK + ");", "g0 = (int)(" + MARK + ") + 1;", "g0 = ({ " + MARK + "; 1; });", "g0 = ({ int v = 1; v + (" + MARK + "); });",
                         "do g0 = 0; while (" + MARK + ");", "g0 = _Generic(1, int: " + MARK + ", long: 1);", "g0 = _Generic(1, long: " + MARK + ", int: 1);", "{ __typeof__(" + MARK + ") *v = 0; (void)v; }", "g0 += -(" + MARK + ");", "gq = (Q){ " + MARK + " };", "fe(1, " + MARK + ", 2);", "if (0) " + MARK + ";", "g0 = !(" + MARK + ");",
                         "{ int v[3] = { [1] = " + MARK + ", 2 }; (void)v; }", "asm volatile(\"\" : : \"r\"(" + MARK + "));", "gp = &ga[(" + MARK + ") & 1];", "g0 = (" + MARK + ") == 3;", "g0 = (1 ? (" + MARK + ") : 0);", "g0 = 0 ? (" + MARK + ") : 1;"])

    def sctx(self):
        """statement contexts"""
        s = self.s
        k = s.below(12)
        if k < 4:
            return MARK
        inner = self.sctx() if s.chance(40) else MARK
        return s.choice(["{\n" + inner + "\n}", "if (g0) {\n" + inner + "\n}", "if (0) {\n" + inner + "\n}", "if (g0) ; else {\n" + inner + "\n}", "for (int i = 0; i < 2; i++) {\n;}\n" + inner, "{ int g1 = 4; g0 = g1; }\n" + inner, "{\nint loc = 2;\n" + inner + "\ng0 = loc;\n}",
                         "return 4;\n" + inner, "g0 = ({\n" + inner + "\n1; });", "goto out_$u;\n" + inner + "\nout_$u: ;", "/* c\n c2 */ " + inner, "g0 = 1 \\\n;\\\n" + inner, "#if 1\n" + inner + "\n#endif", "#if 0\nx\n#else\n" + inner + "\n#endif", "out_$u: ;\n" + inner + "\nif (0) goto out_$u;",
                         "static const char *str_$u = \"a\\\nb\"; (void)str_$u;\n" + inner, "if (0) { return 2; }\n" + inner]).replace("$u", self.name())

    def fctx(self):
        s = self.s
        return s.choice([MARK, "\n" + MARK, "/* c */ " + MARK, "int a_$u;\n" + MARK + "\nint b_$u;", "static int f_$u(void) {\n return 1;\n}\n" + MARK, "#ifndef NOTDEF\n" + MARK + "\n#endif", "#define M_$u(a, \\\n b) a\n" + MARK, "int c_$u = /* x\n y */ 1;\n" + MARK, "#pragma foo bar\n" + MARK, "int d_$u = M2_(1,\n 2,\n 3);\n" + MARK]).replace("$u", self.name())

    def mctx(self):
        s = self.s
        return s.choice(["struct s_$u {\nint a0;\n" + MARK + "\nint z0;\n};", "struct s_$u { int a0; union {\n" + MARK + "\n} u0; };", "union s_$u {\nlong l0;\n" + MARK + " };", "typedef struct {\n" + MARK + "\nint z0; } s_$u;", "struct s_$u { struct {\nint a0;\n" + MARK + "\n}; int z0; };"]).replace("$u", self.name())

    def func(self, body, live=False):
        s = self.s
        n = self.name()
        if live:        # code is generated for it whether or not it is used
            return "int u_%s(int p0)\n{\n" % n + body + "\nreturn 0;\n}"
        h = s.choice(["int u_%s(int p0)\n{\n", "static int u_%s(int p0) {\n", "inline static int u_%s(int p0) {\n", "static inline __attribute__((unused)) int u_%s(int p0, ...) {\n", "int u_%s(int p0, double d, Q q)\n{\n", "_Noreturn void w_%s(void); int u_%s(int p0) {\n"]).replace("%s", n)
        return h + body + "\nreturn 0;\n}"

    def filler(self):
        s = self.s
        return s.choice(["static int v_$u = 3;", "int v_$u[] = {\n1,\n2,\n};", "struct t_$u {\nint a;\n};", "/* a\ncomment */", "// line \\\ncontinued", "#define D_$u(x) ((x) + 1)", "static int k_$u(int a) {\nswitch (a) {\ncase 1: return 2;\ndefault: break;\n}\nfor (int i = 0; i < a; i++)\na += i;\nreturn a;\n}",
                         "#if 0\nint x = ;\n\"unclosed\n#endif", "enum { e_$u = 1 <<\n3 };", "const char *s_$u = \"a\" \"b\"\n\"c\" \\\n\"d\";", "int q_$u(int a, int b);", "#define LONG_$u(a) a \\\n a \\\n a", "", "typedef int (*fp_$u)(int);", "static int w_$u = M2_(1,\n2\n,3);", "int e2_$u = __LINE__;", "extern int (*x_$u)[2];"]).replace("$u", self.name())


class C20(Check):
    id = "C20"
    technique = ("property-based testing: one error of a known kind injected at a generated place of a valid program; exit status and position of the diagnostic compared "
                 "with the place known by construction, ill-formedness and well-formedness confirmed by gcc and clang")
    level_note = "Random exploration with a fixed seed: no absence claim. Only rules slimcc itself enforces are in the catalogue; the deliberate omissions are listed in DESIGN.md."
    rule = "a case is one program with one injected error and its twin without the error; non-trivial if gcc and clang both reject the one at that line and accept the other"
    batches = {"quick": 420, "thorough": 12000}
    per = 8

    def case(self, s):
        g = Gen(s)
        k = KINDS[s.below(len(KINDS))]
        nm, i, c = "n" + g.name(), s.choice(["g0", "1", "(g0 + 1)", "f0()", "ga[1]"]), str(s.range(1, 900))
        ctx = MARK
        lvl = k.lvl
        mac = None
        if lvl == "E":
            ctx = g.ectx(k.live)
            if s.chance(25):      # the expression on a line of its own
                ctx = ctx.replace(MARK, "\n" + MARK + "\n")
            if s.chance(15):
                mac = s.choice(["obj", "arg", "fn"])
            lvl = "S"
        pre, post = "", ""
        if lvl == "S":
            st = g.sctx() if not k.live else MARK
            if k.name == "defer" and "goto" in st:      # the wrapper's own jump would cross the defer
                st = MARK
            ctx = st.replace(MARK, ctx)
            pre = "\n".join(s.choice(["g0 = 1;", "int lv%d = 2;" % j, "{\ng0++;\n}", "if (p0)\ng0 = p0;", "// c", "g0 = M2_(1,\n2, 3);"]) for j in range(s.below(4)))
            ctx = g.func((pre + "\n" if pre else "") + ctx, k.live)
        elif lvl == "M":
            ctx = g.mctx()
            if s.chance(30):
                ctx = g.func(ctx)
        elif lvl == "D" and s.chance(40):
            ctx = g.func("g0 = 1;\n" + ctx + "\ng0 = 2;")
        elif lvl == "F":
            ctx = g.fctx()
        before = "\n".join(g.filler() for _ in range(s.below(6)))
        afterw = "\n".join(g.filler() for _ in range(s.below(4)))
        where = s.weighted([(60, "main"), (25, "header"), (15, "nested")])
        if k.after:
            where = "main"
        line = s.below(6) if s.chance(12) else None        # a #line before the place: the physical position is still named
        mode = s.choice(["-S", "-S", "-c", "-S -O0", "-S -g", "-E"])
        if k.flags:
            mode += " " + k.flags
        crlf = s.chance(6)

        def build(txt):
            t = g.fill(txt, nm, i, c)
            first = last = None
            chunk = before + "\n"
            if mac == "obj":
                chunk += "#define BAD_%s %s\n" % (nm, t)
                macline = chunk.count("\n")
                t2 = "BAD_%s" % nm
            elif mac == "fn":
                chunk += "#define BAD_%s(x) (x, %s)\n" % (nm, t)
                macline = chunk.count("\n")
                t2 = "BAD_%s(1)" % nm
            elif mac == "arg":
                chunk += "#define PASS_%s(x) (x)\n" % nm
                macline = None
                t2 = "PASS_%s(%s)" % (nm, t)
            else:
                macline = None
                t2 = t
            body = "\n" + ctx
            at = body.index(MARK)
            chunk += ("#line %d\n" % (1 + line * 37) if line is not None else "")
            lead = chunk + body[:at]
            # directives must start a line
            full = lead
            if k.lvl == "D" or t2.startswith("#"):
                full = lead.rstrip(" ")
                if not full.endswith("\n"):
                    full += "\n"
                t2 += "\n"
            first = full.count("\n") + 1
            full += t2
            last = first + t2.rstrip("\n").count("\n")
            full += body[at + 1:] + "\n" + afterw + "\n"
            return full, first, last, macline

        bad, first, last, macline = build(k.bad)
        good = build(k.good)[0]
        pl = "#define M2_(a, b, c) ((a) + (b) + (c))\n"
        def lay(text):
            if where == "main":
                return {"m.c": PRE + pl + text}, "m.c", PRE.count("\n") + 1
            h = {"h.h": text, "m.c": PRE + pl + "#include \"h.h\"\nint after_all;\n"}
            if where == "nested":
                h = {"d/h2.h": text, "h.h": "int in_h;\n#include \"d/h2.h\"\nint end_h;\n", "m.c": PRE + pl + "\n#include \"h.h\"\n"}
            return h, ("h.h" if where == "header" else "d/h2.h"), 0
        fb, fname, off = lay(bad)
        fg = lay(good)[0]
        if crlf:
            fb = {n: t.replace("\n", "\r\n") for n, t in fb.items()}
            fg = {n: t.replace("\n", "\r\n") for n, t in fg.items()}
        return {"kind": k.name, "bad": fb, "good": fg, "file": fname, "first": first + off, "last": last + off, "mac": macline + off if macline else 0, "after": k.after, "mode": mode, "bads": k.bad, "pp": k.lvl == "D" and not k.trust, "line": line, "trust": k.trust}

    def refs(self, d, c, files, bad, comps=("gcc", "clang")):
        if c.get("trust"):
            return None
        for n, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            cc.write(os.path.join(d, n), t)
        for comp in comps:
            r = cc.run([comp, "-w", "-std=gnu2x", "-fsyntax-only"] + (["-Werror=incompatible-pointer-types"] if False else []) + ["m.c"], cwd=d, timeout=60)
            if not bad:
                if r.rc:
                    return "%s refuses the twin: %s" % (comp, r.err[:300])
                continue
            if r.rc == 0:
                return "%s accepts" % comp
            if not c["after"] and c["line"] is None:
                lines = [int(x) for x in re.findall(r"^%s:(\d+):\d+: (?:fatal )?error" % re.escape(c["file"]), r.err, re.M)]
                lines += [int(x) for x in re.findall(r"^%s:(\d+):\d+: note: expanded from macro" % re.escape(c["file"]), r.err, re.M)]
                lines += [int(x) for x in re.findall(r"^%s:(\d+):\d+: note: in definition of macro" % re.escape(c["file"]), r.err, re.M)]
                if not any(c["first"] <= l <= c["last"] + 1 or l == c["mac"] for l in lines):
                    return "%s: other line" % comp
        return None

    def slimcc(self, ctx, d, c, files, mode):
        for n, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            cc.write(os.path.join(d, n), t)
        return cc.run([ctx.builds["default"], "-w", *mode.split(), "-o", "out", "m.c"], cwd=d, timeout=30)

    def place(self, c, err):
        """None if the diagnostic names the place, else what it names"""
        pos = re.findall(r"^(.+?):(\d+): ", err, re.M)
        if not pos:
            return "no position"
        for f, l in pos:
            f = f[2:] if f.startswith("./") else f
            l = int(l)
            if f == c["file"] and (c["first"] <= l <= c["last"] or (c["mac"] and l == c["mac"]) or (c["after"] and l >= c["first"])):
                break
        else:
            return "%s:%s" % pos[0]
        f, l = pos[0]
        f = f[2:] if f.startswith("./") else f
        l = int(l)
        if f == c["file"] and (c["first"] <= l <= c["last"] or l == c["mac"] or c["after"]):
            return None
        # a missing token may be noticed at the next one
        return "%s:%s first" % pos[0]

    def check_one(self, ctx, d, c):
        if "-E" in c["mode"] and not c["pp"]:
            c = dict(c, mode=c["mode"].replace("-E", "-S"))
        r = self.slimcc(ctx, d, c, c["bad"], c["mode"])
        if r.timeout or r.rc is None or r.rc < 0 or "internal error" in r.err:
            return "does not end normally on an ill-formed program (%s): rc=%s %s" % (c["kind"], r.rc, r.err[-150:]), r
        if r.rc == 0:
            return "accepts an ill-formed program (%s): %s" % (c["kind"], c["bads"]), r
        if "(null)" in r.err:
            return "prints a null pointer in a diagnostic (%s): %s" % (c["kind"], r.err[-200:]), r
        p = self.place(c, r.err)
        if p:
            return "diagnostic names %s, the error (%s: %s) is at %s:%d-%d: %s" % (p, c["kind"], c["bads"], c["file"], c["first"], c["last"], r.err[-200:]), r
        r = self.slimcc(ctx, d, c, c["good"], c["mode"])
        if r.rc:
            return "rejects the program without the error (%s): rc=%s %s" % (c["kind"], r.rc, r.err[-200:]), r
        return None, r

    def judge(self, ctx, c):
        d = ctx.fresh()
        what, r = self.check_one(ctx, d, c)
        if not what:
            return None
        if self.refs(d, c, c["bad"], True) or self.refs(d, c, c["good"], False):
            return None
        files = {"bad/" + n: t for n, t in c["bad"].items()}
        files.update({"good/" + n: t for n, t in c["good"].items()})
        return Failure(what, files, expected="rejected at %s:%d-%d; twin accepted" % (c["file"], c["first"], c["last"]), actual=r.err[-1500:], cmd="cd bad; slimcc %s m.c" % c["mode"],
                       extra={k: v for k, v in c.items() if k not in ("bad", "good")})

    def run_batch(self, ctx, idx, src, stats):
        for _ in range(self.per):
            s = Src(src.bits(62))
            c = self.case(s)
            d = ctx.fresh()
            what, r = self.check_one(ctx, d, c)
            ok = not self.refs(d, c, c["bad"], True, ("gcc",)) and not self.refs(d, c, c["good"], False, ("gcc",))
            stats.case(repr(c["bad"]), ok, [c["kind"], "in " + c["file"], "mode " + c["mode"]] + ([] if ok else ["not ill-formed for gcc at that line"]) + (["in macro"] if c["mac"] else []))
            if what:
                f = self.judge(ctx, c)
                if f:
                    f.choices = s.log
                    stats.failures.append(f)
                else:
                    stats.discarded += 1
                    stats.classes["unconfirmed: " + c["kind"]] += 1
                    if os.environ.get("VERIF_DUMPBAD"):
                        open(os.path.join(os.environ["VERIF_DUMPBAD"], "unconf.txt"), "a").write(what + "\n%s\n%s\n" % (self.refs(d, c, c["bad"], True), self.refs(d, c, c["good"], False)))

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        c = self.case(s)
        f = self.judge(ctx, c)
        if f:
            f.choices = s.log
        return f

    def replay_record(self, ctx, rec):
        if not rec.get("files") or not rec.get("extra"):
            return self.recheck(ctx, rec["choices"])
        c = dict(rec["extra"])
        c["bad"] = {n[4:]: t for n, t in rec["files"].items() if n.startswith("bad/")}
        c["good"] = {n[5:]: t for n, t in rec["files"].items() if n.startswith("good/")}
        return self.judge(ctx, c)


CHECK = C20()
