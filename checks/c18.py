"""C18: compilation is deterministic and self-hosting reproduces it."""
import os
from lib import build, cc, corpus, mutate
from lib.engine import Check, Failure, Src, REPO

OPTS = [[], ["-O0"], ["-g"], ["-fPIC"], ["-fno-pic"], ["-fpie"], ["-O2", "-g"], ["-fcommon"], ["-ffunction-sections", "-fdata-sections"],
        ["-femulated-tls"], ["-fstack-reuse=none"], ["-fpic", "-O0"]]


class C18(Check):
    id = "C18"
    technique = "property-based testing: generated programs compiled under different environments, memory behaviours and builds of the compiler; metamorphic oracle (identical bytes)"
    level_note = "Random exploration with a fixed seed: no absence claim."
    rule = ("a case is one source text (generated valid program, mutated program, a large concatenation, or a source file of the project) compiled with one option set by "
            "every build of the compiler (gcc -O0, gcc -O2, clang -O2, ASan, UBSan, the one built by itself, one that always takes the memory-reclaiming path), in another "
            "directory, with another environment and heap filler, and together with other files in one invocation; non-trivial if the compiler produced assembly or a diagnostic")
    batches = {"quick": 700, "thorough": 20000}
    need = ("default", "asan", "ubsan", "clang", "gccO2", "stage2", "reclaim")

    def project(self):
        return [(n, p) for n in build.sources() for p in [os.path.join(os.path.dirname(self.ctx.builds["default"]), n + ".c")] if os.path.exists(p)]

    def setup(self, ctx):
        self.ctx = ctx

    def gen(self, s):
        k = s.below(20)
        if k < 12:
            text, flags, cn = corpus.tu(s)
            cls = "valid:" + cn
        elif k < 18:
            text, flags, cn = corpus.tu(s, nunits=1)
            text, _ = mutate.mutate(s, text, None)
            cls = "mutated"
        elif k < 19:
            text, flags, cn = corpus.tu(s, nunits=s.range(10, 25))
            cls = "large:" + cn
        else:
            text, flags, cls = mutate.soup(s), ["-std=c23"], "soup"
        std = [f for f in flags if f.startswith(("-std", "-f"))]
        return text, std + s.choice(OPTS) + ["-w"], cls

    def comp(self, b, d, text, opts, mode="-S", env=None, extra=None, name="s.c"):
        """(status, diagnostics, bytes)"""
        os.makedirs(d, exist_ok=True)
        cc.write(os.path.join(d, name), text)
        e = dict(cc.ENV, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0", **(env or {}))
        out = os.path.splitext(name)[0] + (".s" if mode == "-S" else ".i")
        if extra:
            for n, t in extra:
                cc.write(os.path.join(d, n), t)
            names = [extra[0][0], name] + [n for n, _ in extra[1:]]
            r = cc.run([b, *opts, mode, *names], cwd=d, timeout=60, env=e)
        else:
            r = cc.run([b, *opts, mode, "-o", out, name], cwd=d, timeout=60, env=e)
        try:
            data = open(os.path.join(d, out), "rb").read()
        except OSError:
            data = None
        if r.timeout or "rss limit" in r.err or "out of memory" in r.err:
            return "resource"
        err = "\n".join(l for l in r.err.split("\n") if "runtime error:" not in l)
        return (r.rc, err, data if r.rc == 0 else None)

    def judge(self, ctx, text, opts, others=()):
        if "stage2" not in ctx.builds:
            return Failure("the compiler does not build itself: " + ctx.builds.get("stage2_error", "")[:600], {}), "no stage2"
        d = ctx.fresh()
        B = ctx.builds
        ref = self.comp(B["default"], d + "/a", text, opts)
        if ref == "resource":
            return None, "resource"
        if ref[0] not in (0, 1):
            return None, "crash"            # C19 judges that
        # runs that have to agree: [label, result]
        pad = {"X%d" % i: "y" * 97 for i in range(40)}
        runs = [("a second run in another directory and environment", self.comp(B["default"], d + "/bb/ccc", text, opts, env=dict(pad, MALLOC_PERTURB_="165")))]
        for v in ("gccO2", "clang", "ubsan", "asan", "stage2", "reclaim"):
            runs.append(("the %s build" % v, self.comp(B[v], d + "/" + v, text, opts, env={"MALLOC_PERTURB_": "90"} if v == "reclaim" else None)))
        if others and ref[0] == 0 and all(self.comp(B["default"], d + "/o", t, opts)[0] == 0 for _, t in others):
            r = self.comp(B["default"], d + "/m", text, opts, extra=others)
            runs.append(("a run along with other files", r if r == "resource" else (r[0], ref[1], r[2])))
        for label, r in runs:
            if r == "resource":
                continue
            if r != ref:
                files = {"s.c": text}
                files.update(dict(others))
                what = "differs: " + label
                if r[0] != ref[0]:
                    what += " (exit status %s, not %s)" % (r[0], ref[0])
                elif r[1] != ref[1]:
                    what += " (other diagnostics)"
                return Failure(what, files, expected=(ref[1] or "")[:1500], actual=self.diff(ref, r), cmd="slimcc %s -S s.c" % " ".join(opts)), "differs"
        return None, "accepted" if ref[0] == 0 else "rejected"

    def diff(self, a, b):
        if a[2] is not None and b[2] is not None:
            import difflib
            return "\n".join(list(difflib.unified_diff(a[2].decode("utf-8", "replace").split("\n"), b[2].decode("utf-8", "replace").split("\n"), n=3, lineterm=""))[:80])
        return (b[1] or "")[-1500:]

    def case(self, src):
        text, opts, cls = self.gen(src)
        others = ()
        if src.chance(35):
            others = [("o%d.c" % i, corpus.tu(src, nunits=1)[0]) for i in range(src.range(1, 3))]
        return text, opts, cls, others

    def run_batch(self, ctx, idx, src, stats):
        proj = self.project()
        if idx < len(proj):
            name, path = proj[idx]
            src.below(1)
            text = open(path).read()
            opts = ["-I" + os.path.dirname(path), "-I" + os.path.join(os.path.dirname(path), "include")]
            f, res = self.judge(ctx, text, opts)
            stats.case(text, True, ["project source", res])
            if f:
                f.extra = {"flags": [], "project": name}
                f.files = {"note": "the project's own " + name + ".c"}
                stats.failures.append(f)
            return
        text, opts, cls, others = self.case(src)
        f, res = self.judge(ctx, text, opts, others)
        stats.case(text, res in ("accepted", "rejected"), [cls, res] + (["several files"] if others else []) + ["opt:" + " ".join(opts)])
        if f:
            f.choices = src.log
            f.extra = {"flags": opts}
            stats.failures.append(f)

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        text, opts, cls, others = self.case(s)
        f, _ = self.judge(ctx, text, opts, others)
        if f:
            f.choices = s.log
            f.extra = {"flags": opts}
        return f

    def judge_text(self, ctx, text, extra):
        f, _ = self.judge(ctx, text, extra["flags"], extra.get("others", ()))
        if f:
            f.extra = extra
        return f

    def same(self, f, g):
        return f.what == g.what

    def replay_record(self, ctx, rec):
        if rec.get("source") is not None:
            return self.judge(ctx, rec["source"], rec.get("flags", []))[0]
        if rec["choices"] is not None:
            return self.recheck(ctx, rec["choices"])
        if rec["extra"].get("project"):
            p = dict(self.project())[rec["extra"]["project"]]
            return self.judge(ctx, open(p).read(), ["-I" + os.path.dirname(p), "-I" + os.path.join(os.path.dirname(p), "include")])[0]
        return self.judge(ctx, rec["files"]["s.c"], rec["extra"]["flags"], [(n, t) for n, t in rec["files"].items() if n != "s.c"])[0]


CHECK = C18()
