"""C05: cleanup attribute, defer, VLA lifetime."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib import stmt

SUPPORT = r'''
struct B { unsigned a; int pad[6]; };
struct V { char *p; unsigned long n; struct V *up; };
static struct V *vtop;
static void C(unsigned *p) { printf("c%x\n", *p); *p += 1; }
static void CB(struct B *p) { printf("b%x %d\n", p->a, p->pad[0] | p->pad[5]); p->a = 9; }
/* a VLA: right size, aligned, disjoint from every live VLA, contents kept while it lives */
static void VC(struct V *v) {
  printf("v%lu%s\n", v->n, v == vtop ? "" : " out of order");
  for (unsigned long i = 0; i < v->n; i++) if ((u8)v->p[i] != (u8)(v->n + i)) { printf("VLA overwritten\n"); break; }
  vtop = v->up;
}
static void VL(void *p, unsigned long n, int al) {
  printf("n%lu%s\n", n, (unsigned long)p % al ? " MISALIGNED" : "");
  for (struct V *v = vtop; v; v = v->up)
    if ((char *)p < v->p + v->n && v->p < (char *)p + n) printf("VLA OVERLAP\n");
  for (unsigned long i = 0; i < n; i++) ((char *)p)[i] = (char)(n + i);
}
#ifndef __slimcc__
#define alloca __builtin_alloca
#else
void *alloca(unsigned long);
#endif
struct AL { struct AL *up; unsigned long n; };
#define AL(p, z) do { char *p_ = (p); memset(p_, (int)(z) + 3, z); struct AL *a_ = __builtin_alloca(sizeof *a_ + 8); \
  a_->up = al; a_->n = (z); ((char **)a_)[2] = p_; al = a_; if ((unsigned long)p_ % 16) printf("alloca misaligned\n"); } while (0)
static unsigned CK(struct AL *a) {
  unsigned c = 0;
  for (; a; a = a->up, c++) for (unsigned long i = 0; i < a->n; i++) if (((u8 **)a)[2][i] != (u8)(a->n + 3)) { printf("alloca block %lu overwritten\n", a->n); break; }
  return c;
}
static unsigned use(void *p) { *(char *)p = 1; return 1; }
static unsigned big(int a, float b, struct B c) { return a + c.a + c.pad[0]; }
static char *lo_, *hi_;
static void SP(void *p) { if (!lo_ || (char *)p < lo_) lo_ = p; if (!hi_ || (char *)p > hi_) hi_ = p; }
'''


class C05(UnitCheck):
    id = "C05"
    technique = ("property-based testing: generated functions with cleanup handlers, defers and VLAs left in every way; trace compared with gcc "
                 "(cleanup attribute; defer spelled for gcc as a nested function run by cleanup) and clang")
    level_note = ("Random exploration with a fixed seed: no absence claim. gcc at -O0 and -O2 with sanitizers is the reference; clang cannot "
                  "compile the nested functions that stand for defer, so it is consulted only for cases without them.")
    rule = ("a case is one generated function with cleanups, defers or VLAs in nested scopes, left by every kind of exit, called with 3 inputs; "
            "non-trivial if it has at least one such object")
    batches = {"quick": 600, "thorough": 9000}
    prelude = PRELUDE + stmt.PRELUDE + SUPPORT
    slimcc_flags = ["-std=c23", "-w", "-fdefer-ts"]
    units_per_batch = 14
    use_clang = False

    def slimcc_build(self, ctx, d, text, flags, name="s"):
        if "static void gr" in text:        # that flag is documented to keep VLA storage
            flags = [f for f in flags if "stack-reuse" not in f]
        return UnitCheck.slimcc_build(self, ctx, d, text, flags, name)

    def trusted(self, ctx, d, text, ref):
        # clang as a further reference where it can compile the program
        from lib import cc
        from lib.diff import split_units
        if self.ref_build(ctx, d, text, "clang", name="c").rc == 0:
            r = self.run_exe(d, "c")
            if r.rc or split_units(r.out) != ref:
                return False
        return UnitCheck.trusted(self, ctx, d, text, ref)

    def gen_unit(self, src, uid):
        if src.chance(8):
            return self.u_growth(src, uid)
        if src.chance(7):
            return self.u_alloca(src, uid)
        g = stmt.SG(src, uid, cleanup=True, budget=src.choice([14, 26, 36]))
        code, call = g.function()
        return Unit(code, call, sorted(g.classes), bool(g.classes & {"cleanup", "defer", "vla"}))

    def u_growth(self, src, uid):
        """A scope with a VLA entered many times must not grow the stack."""
        s = src
        n = s.range(20000, 40000)
        size = s.choice([1000, 3000, 777])
        ex = s.choice(["", "if (i % 3 == 0) continue;", "if (i % 5 == 0) goto again;", "{ char w[n / 2 + i % 7]; w[i % 7] = 2; SP(w); if (i % 2) continue; }",
                       "switch (i % 4) { case 1: { long z[i % 40 + 1]; z[0] = 1; SP(z); break; } case 2: goto again; default:; }",
                       "x += ({ char z[i % 100 + 1]; z[0] = 3; SP(z); z[0]; });",
                       "for (int k = 0; k < 2; k++) { char z[i % 100 + 1]; z[0] = 3; SP(z); if (i % 3 == 0) goto again; }"])
        decl = s.choice(["char v[n];", "char v[n / 2][2];", "long v[n / 8 + 1];", "char v[n] __attribute__((aligned(64)));", "typedef char T[n]; T v;"])
        loop = s.choice(["for (int i = 0; i < %d; i++) { %%s }" % n, "int i = 0; while (i < %d) { %%s }" % n, "int i = 0; do { %%s } while (i < %d);" % n,
                         "int i = 0; top: if (i < %d) { %%s goto top; }" % n])
        if "for (int i" in loop:
            ex = ex.replace("goto again", "continue")
            body = "%s SP(v); *(char *)v = i; x += *(char *)v; %s" % (decl, ex)
        else:
            ex = ex.replace("continue;", "goto again;")
            if "goto top" in loop:
                body = "i++; { %s SP(v); *(char *)v = i; x += *(char *)v; %s } again:;" % (decl, ex)
            else:
                body = "i++; { %s SP(v); *(char *)v = i; x += *(char *)v; %s } again:;" % (decl, ex)
        code = "static void gr%d(int n) { unsigned x = 0; lo_ = hi_ = 0; %s P(x); P(hi_ - lo_ < %d); }" % (uid, loop % body, size * 4 + 4096)
        return Unit(code, "gr%d(%d);" % (uid, size), ["vla", "vla-loop"])

    def u_alloca(self, src, uid):
        """Blocks from alloca, taken while no VLA is live, keep their contents to the end of the function."""
        s = src
        k = [0]

        def alloc():
            k[0] += 1
            n = s.choice(["%d" % (1 + s.below(200)), "n %% %d + 1" % (1 + s.below(300)), "(i & 7) + 1"])
            return "{ unsigned long z_ = %s; AL(%s(z_), z_); }" % (n, s.choice(["__builtin_alloca", "alloca"]))

        def vla(d):
            return "{ %s v%d[%s]; memset(v%d, 0x55, sizeof v%d); %s %s }" % (
                s.choice(["char", "int", "long"]), d, s.choice(["n", "(i & 15) + 1", "n / 3 + 1"]), d, d, "x += *(char *)v%d;" % d,
                s.choice(["", "if (i & 1) goto out;", "break;", "continue;", vla(d + 1) if d < 2 else "use(v%d);" % d]))
        body = []
        for _ in range(s.range(2, 6)):
            body.append(s.choice([alloc(), vla(0), "x += big(i, 1.0f, %s);" % s.choice(["(struct B){3}", "(struct B){ .pad = { 1 } }"]), alloc(), "use(%s(i + 8));" % "alloca"]))
        code = "static unsigned al%d(unsigned n) { struct AL *al = 0; unsigned x = 0; for (int i = 0; i < %d; i++) { %s continue; out: x++; } return x + CK(al); }" % (
            uid, s.range(1, 9), " ".join(body))
        return Unit(code, " ".join("P(al%d(%d));" % (uid, 1 + s.below(150)) for _ in range(2)), ["alloca"])


CHECK = C05()
