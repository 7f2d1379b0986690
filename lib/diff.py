"""Differential unit checks: many small generated functions per program, slimcc against gcc, with every
disagreement confirmed against clang, gcc -O2 and the sanitizers before it counts."""
import os
from lib.engine import Check, Failure, Src, seed_for
from lib import cc

STD_FLAGSETS = [
    [],
    ["-O0"],
    [],
    ["-fPIC"],
    ["-O0", "-fPIC"],
    ["-fno-pic", "-no-pie"],
    ["-g", "-fstack-reuse=none"],
    ["-O0", "-fno-pic", "-no-pie", "-fstack-reuse=none"],
]


class Unit:
    """code: file-scope text; call: statement run in main (prints lines)."""

    def __init__(self, code, call, classes=(), nontrivial=True):
        self.code, self.call, self.classes, self.nontrivial = code, call, list(classes), nontrivial


PRELUDE = r'''
int printf(const char *, ...); int fflush(void *); void *memset(void *, int, unsigned long);
void *memcpy(void *, const void *, unsigned long); int memcmp(const void *, const void *, unsigned long);
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16;
typedef int i32; typedef unsigned u32; typedef long i64; typedef unsigned long u64;
typedef long long ll; typedef unsigned long long ull;
static void P(ull v) { printf("%llx\n", v); }
static void PB(const void *p, int n) { for (int i = 0; i < n; i++) printf("%02x", ((const u8 *)p)[i]); printf("\n"); }
'''


def split_units(out):
    res, cur = {}, None
    for line in out.split("\n"):
        if line.startswith("@@"):
            cur = line[2:]
            res[cur] = []
        elif cur is not None:
            res[cur].append(line)
    return res


class UnitCheck(Check):
    technique = "property-based testing: generated UB-free C functions, differential oracle against gcc, clang and sanitizers"
    level_note = ("Random exploration with a fixed seed: no absence claim. Trusts that gcc -O0, gcc -O2 and clang agreeing under "
                  "ASan/UBSan give the required result.")
    prelude = PRELUDE
    units_per_batch = 30
    flagsets = STD_FLAGSETS
    slimcc_flags = ["-std=c23"]
    gcc_flags = cc.GCC_FLAGS
    clang_flags = cc.CLANG_FLAGS
    link_flags = []
    use_clang = True
    use_san = True
    san_flags = cc.SAN_FLAGS
    use_O2 = True
    run_timeout = 20

    def gen_unit(self, src, uid):
        raise NotImplementedError

    # ---- program assembly
    def program(self, units):
        parts = [self.prelude]
        for _, u in units:
            parts.append(u.code)
        parts.append("int main(void) {")
        for uid, u in units:
            parts.append('printf("@@%d\\n"); %s fflush(0);' % (uid, u.call))
        parts.append('printf("@@end\\n"); return 0; }\n')
        return "\n".join(parts)

    # ---- building blocks, overridable
    def slimcc_build(self, ctx, d, text, flags, name="s"):
        cc.write(os.path.join(d, name + ".c"), text)
        r = cc.run([ctx.builds["default"], *self.slimcc_flags, *flags, "-o", name + ".exe", name + ".c", *self.link_flags], cwd=d, timeout=60)
        return r

    def ref_build(self, ctx, d, text, compiler="gcc", extra=(), name="g"):
        cc.write(os.path.join(d, name + ".c"), text)
        fl = self.gcc_flags if compiler == "gcc" else self.clang_flags
        return cc.run([compiler, *fl, *extra, "-o", name + ".exe", name + ".c", *self.link_flags], cwd=d, timeout=120)

    def run_exe(self, d, name):
        return cc.run(["./" + name + ".exe"], cwd=d, timeout=self.run_timeout)

    def reference(self, ctx, d, units, text):
        r = self.ref_build(ctx, d, text)
        if r.rc:
            return None, "gcc rejects: " + r.err[:2000]
        r = self.run_exe(d, "g")
        if r.rc:
            return None, "reference run fails rc=%s" % r.rc
        return split_units(r.out), None

    # ---- campaign
    def run_batch(self, ctx, idx, src, stats):
        fi = src.below(len(self.flagsets))
        flags = self.flagsets[fi]
        units, logs = [], {}
        for i in range(self.units_per_batch):
            s = Src(src.bits(62))
            u = self.gen_unit(s, i)
            if u is None:
                continue
            units.append((i, u))
            logs[i] = [fi] + s.log
            stats.case(u.code + u.call, u.nontrivial, u.classes)
        d = ctx.fresh()
        text = self.program(units)
        ref, why = self.reference(ctx, d, units, text)
        if ref is None:
            # isolate the units the reference does not take; this is a generator defect, reported as a note
            bad = []
            good = []
            for i, u in units:
                rr, w = self.reference(ctx, d, [(i, u)], self.program([(i, u)]))
                (good if rr is not None else bad).append((i, u))
                if rr is None:
                    why = w
                    if os.environ.get("VERIF_DUMPBAD"):
                        cc.write(os.path.join(os.environ["VERIF_DUMPBAD"], "bad%d_%d.c" % (idx, i)), self.program([(i, u)]))
            stats.notes.append("generator: %d units refused by reference: %s" % (len(bad), why[-300:]))
            stats.discarded += len(bad)
            stats.classes["refused_by_reference"] += len(bad)
            units = good
            text = self.program(units)
            ref, why = self.reference(ctx, d, units, text)
            if ref is None:
                stats.notes.append("batch without reference: " + why[-200:])
                stats.discarded += len(units)
                return
        r = self.slimcc_build(ctx, d, text, flags)
        if r.rc:
            sus = []
            for i, u in units:
                if self.slimcc_build(ctx, d, self.program([(i, u)]), flags, "t").rc:
                    sus.append(i)
            if not sus:
                stats.failures.append(Failure("slimcc fails to build a valid program: " + (r.err[-300:] or repr(r)),
                                              {"s.c": text}, cmd="slimcc " + " ".join(self.slimcc_flags + flags)))
            self.confirm(ctx, stats, [(i, logs[i]) for i in sus])
            keep = [(i, u) for i, u in units if i not in sus]
            if not keep or len(keep) == len(units):
                return
            text = self.program(keep)
            r = self.slimcc_build(ctx, d, text, flags)
            if r.rc:
                return
            units = keep
        r = self.run_exe(d, "s")
        got = split_units(r.out)
        sus = [i for i, u in units if got.get(str(i)) != ref.get(str(i))]
        if (r.rc or r.timeout) and not sus:
            sus = [i for i, u in units][-1:]
        if sus:
            n = len(stats.failures)
            self.confirm(ctx, stats, [(i, logs[i]) for i in sus[:4]])
            if len(stats.failures) == n and not (r.rc == 0):
                stats.notes.append("whole-program misbehaviour not reproduced by single units: rc=%s" % r.rc)
                f = self.judge(ctx, ctx.fresh(), units, flags)
                if f:
                    f.choices = None
                    stats.failures.append(f)

    def confirm(self, ctx, stats, cands):
        for i, log in cands:
            f = self.recheck(ctx, log)
            if f is not None:
                stats.failures.append(f)
            else:
                stats.discarded += 1
                stats.classes["unconfirmed_differences"] += 1

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        fi = s.below(len(self.flagsets))
        flags = self.flagsets[fi]
        u = self.gen_unit(s, 0)
        if u is None:
            return None
        f = self.judge(ctx, ctx.fresh(), [(0, u)], flags)
        if f is not None:
            f.choices = s.log
            f.key = self.classify(f, u)
        return f

    def classify(self, f, u):
        """Key of a known finding, or None."""
        return None

    def judge(self, ctx, d, units, flags):
        """Full oracle on a set of units: Failure or None."""
        return self.judge_text(ctx, d, units, self.program(units), flags)

    def replay_record(self, ctx, rec):
        """Committed regressions are whole programs; everything else regenerates from its choices."""
        if rec.get("source") is None:
            return Check.replay_record(self, ctx, rec)
        return self.judge_text(ctx, ctx.fresh(), None, rec["source"], rec.get("flags", []))

    def judge_text(self, ctx, d, units, text, flags):
        r = self.slimcc_build(ctx, d, text, flags)
        cmd = "slimcc %s -o s.exe s.c && ./s.exe" % " ".join(self.slimcc_flags + flags + self.link_flags)
        ref, why = self.reference(ctx, d, units, text)
        if ref is None:
            return None
        if r.rc:
            if not self.trusted_valid(ctx, d, text):
                return None
            return Failure("slimcc does not build a valid program: " + (r.err.strip()[-300:] or repr(r)), {"s.c": text},
                           expected="builds", actual=r.err[-2000:], cmd=cmd)
        r = self.run_exe(d, "s")
        got = split_units(r.out)
        if got == ref and r.rc == 0 and not r.timeout:
            return None
        if not self.trusted(ctx, d, text, ref):
            return None
        diff = []
        for k in sorted(set(ref) | set(got)):
            if ref.get(k) != got.get(k):
                a, b = got.get(k) or ["<missing>"], ref.get(k) or ["<missing>"]
                for x, y in zip(a + ["<end>"], b + ["<end>"]):
                    if x != y:
                        diff.append("got %s want %s" % (x[:120], y[:120]))
                        break
        return Failure("wrong result%s (flags %s): %s" % ("" if r.rc == 0 else " (rc=%s%s)" % (r.rc, " timeout" if r.timeout else ""),
                                                          " ".join(flags) or "none", "; ".join(diff)[:300]),
                       {"s.c": text}, expected=str(ref)[:4000], actual=(r.out[:4000] + "\nrc=%s" % r.rc), cmd=cmd)

    def trusted_valid(self, ctx, d, text):
        if self.use_clang:
            return self.ref_build(ctx, d, text, "clang", name="c").rc == 0
        return True

    def trusted(self, ctx, d, text, ref):
        """The reference answer is only believed if every other reference agrees and no UB is seen."""
        if self.use_clang:
            if self.ref_build(ctx, d, text, "clang", name="c").rc:
                return False
            r = self.run_exe(d, "c")
            if r.rc or split_units(r.out) != ref:
                return False
        if self.use_O2:
            if self.ref_build(ctx, d, text, "gcc", ["-O2"], name="o").rc:
                return False
            r = self.run_exe(d, "o")
            if r.rc or split_units(r.out) != ref:
                return False
        if self.use_san:
            if self.ref_build(ctx, d, text, "gcc", self.san_flags, name="a").rc:
                return False
            r = cc.run(["./a.exe"], cwd=d, timeout=60, env=dict(cc.ENV, ASAN_OPTIONS="detect_leaks=0"))
            if r.rc or "runtime error" in r.err or split_units(r.out) != ref:
                return False
        return True
