"""C19: any input is compiled or rejected cleanly."""
import os, re
from lib import cc, corpus, mutate
from lib.engine import Check, Failure, Src, REPO

CRASH = re.compile(r"AddressSanitizer|runtime error|internal error|Assertion|LeakSanitizer")
FRAME = re.compile(r"#\d+ 0x\w+ in (\w+) \S*?([a-z0-9-]+\.c):(\d+)")


class C19(Check):
    id = "C19"
    technique = "mutation-based fuzzing of generated programs (token, line and byte mutations, token soup) against an AddressSanitizer build"
    level_note = "Random exploration with a fixed seed: no absence claim. Resource exhaustion by inputs that ask for it (huge objects) is not counted."
    rule = ("a case is one source text, mutated from a generated valid program or made of random tokens, compiled by the sanitizer build and, when "
            "accepted, assembled; non-trivial if it differs from the valid program it came from")
    batches = {"quick": 900, "thorough": 20000}
    per_batch = 10
    need = ("default", "asan")
    timeout = 20

    def gen(self, s):
        k = s.below(10)
        if k == 0:
            return mutate.soup(s), ["soup"], ["-std=c23"]
        text, flags, cn = corpus.tu(s, nunits=s.choice([1, 1, 2]))
        other = None
        if s.chance(20):
            other = mutate.lex(corpus.tu(s, nunits=1)[0])
        t, cls = mutate.mutate(s, text, other)
        return t, cls + ["from:" + cn], flags

    def judge(self, ctx, text, flags):
        d = ctx.fresh()
        cc.write(os.path.join(d, "s.c"), text)
        r = cc.run([ctx.builds["asan"], *flags, "-S", "-o", "s.s", "s.c"], cwd=d, timeout=self.timeout,
                   env=dict(cc.ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3000:allocator_may_return_null=0"))
        what = None
        if "hard rss limit" in r.err or "out of memory" in r.err or "out-of-memory" in r.err or "failed to allocate" in r.err or "allocation-size-too-big" in r.err:
            return None, "resource"
        if r.timeout:
            what = "hang"
        elif r.rc not in (0, 1) or CRASH.search(r.err):
            m = FRAME.findall(r.err)
            first = [f for f in m if not f[0].startswith(("__", "_start"))][:2]
            kind = re.search(r"AddressSanitizer: ([\w-]+)|Assertion [`'](.*?)'|(internal error.*)", r.err)
            what = "%s at %s" % (next((x for x in kind.groups() if x), "?") if kind else "rc=%s" % r.rc, " <- ".join("%s %s:%s" % f for f in first))
        elif r.rc == 1 and not r.err.strip():
            what = "rejected without a diagnostic"
        elif r.rc == 0:
            if not os.path.exists(os.path.join(d, "s.s")):
                what = "exit status 0 without output"
            elif not re.search(r"\b(__)?asm(__)?\b|section|alias|visibility|symver", text):
                a = cc.run(["as", "-o", "s.o", "s.s"], cwd=d, timeout=30)
                if a.rc or a.err:
                    what = "the assembler rejects the output: " + re.sub(r"s\.s:\d+: ", "", (a.err.strip().split("\n") + [""] * 2)[1])[:150]
        return (Failure(what, {"s.c": text}, actual=r.err[-4000:], cmd="slimcc(asan) %s -S s.c" % " ".join(flags)) if what else None), \
            ("accepted" if r.rc == 0 else "rejected")

    def run_batch(self, ctx, idx, src, stats):
        for _ in range(self.per_batch):
            s = Src(src.bits(62))
            text, cls, flags = self.gen(s)
            f, res = self.judge(ctx, text, flags)
            stats.case(text, True, cls + [res])
            if f:
                f = self.recheck(ctx, s.log)
                if f:
                    if os.environ.get("VERIF_DUMPBAD"):
                        with open(os.environ["VERIF_DUMPBAD"] + "/crash.txt", "a") as o:
                            o.write(f.what.replace("\n", " ") + "\n")
                        cc.write("%s/c%d_%d.c" % (os.environ["VERIF_DUMPBAD"], idx, stats.evals), "// " + f.what.replace("\n", " ") + "\n// " + " ".join(flags) + "\n" + f.files["s.c"])
                    stats.failures.append(f)

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        text, cls, flags = self.gen(s)
        f, _ = self.judge(ctx, text, flags)
        if f:
            f.choices = s.log
            f.extra = {"flags": flags}
        return f

    def judge_text(self, ctx, text, extra):
        f = self.judge(ctx, text, extra["flags"])[0]
        if f:
            f.extra = extra
        return f

    def same(self, f, g):
        return f.what == g.what

    def replay_record(self, ctx, rec):
        if rec.get("source") is not None:
            return self.judge(ctx, rec["source"], rec.get("flags", []))[0]
        if rec["choices"] is None:
            return self.judge(ctx, rec["files"]["s.c"], rec["extra"]["flags"])[0]
        return self.recheck(ctx, rec["choices"])


CHECK = C19()
