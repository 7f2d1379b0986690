"""Small property-testing engine: choice streams, shrinking, parallel campaigns, evidence.

Every random decision of a generator is drawn from a Src (a stream of bounded integers seeded by
VERIF_SEED, or a recorded list of choices when shrinking/replaying), so each case is a pure function
of (seed, index) and shrinking works on the choices.
"""
import hashlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
NPROC = max(2, min(16, os.cpu_count() or 2))


class Src:
    """Choice stream.  Value 0 is always the simplest choice of a generator."""

    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.pos = 0
        self.log = []

    def below(self, n):
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1 if n < 64 else v % n
        self.log.append(v)
        return v

    def range(self, lo, hi):           # inclusive
        return lo + self.below(hi - lo + 1)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest first."""
        t = sum(w for w, _ in pairs)
        v = self.below(t)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def chance(self, num, den=100):
        """True with probability num/den; the zero choice is False."""
        return self.below(den) >= den - num

    def bits(self, n):
        return self.below(1 << n)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


class Failure:
    def __init__(self, what, files=None, expected=None, actual=None, cmd=None, choices=None, key=None, extra=None):
        self.what = what            # one line
        self.files = files or {}    # name -> text, enough to reproduce by hand
        self.expected = expected
        self.actual = actual
        self.cmd = cmd
        self.choices = choices      # choice list that regenerates the case
        self.key = key              # identity of a known finding, if it is one
        self.extra = extra or {}

    def record(self, prop):
        return {"property": prop, "what": self.what, "cmd": self.cmd, "expected": self.expected,
                "actual": self.actual, "files": self.files, "choices": self.choices, "key": self.key,
                "extra": self.extra}


class Stats:
    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.samples = []
        self.classes = Counter()
        self.failures = []
        self.discarded = 0
        self.notes = []

    def case(self, text, nontrivial=True, classes=(), sample=None):
        self.evals += 1
        if nontrivial:
            self.hashes.add(hashlib.blake2b(text.encode("utf-8", "surrogateescape"), digest_size=8).digest())
            if len(self.samples) < 2:
                self.samples.append((sample or text)[:1500])
        for c in classes:
            self.classes[c] += 1

    def merge(self, o):
        self.evals += o.evals
        self.hashes |= o.hashes
        if len(self.samples) < 4:
            self.samples += o.samples[:4 - len(self.samples)]
        self.classes.update(o.classes)
        self.failures += o.failures
        self.discarded += o.discarded
        self.notes += o.notes


class Check:
    """Base class.  A subclass sets id, title rule, batches and implements run_batch."""
    id = "C00"
    level = "exploration"
    technique = "property-based testing"
    level_note = ""
    rule = ""
    batches = {"quick": 64, "thorough": 1024}
    assumptions = []
    time_cap = {"quick": 420, "thorough": 6 * 3600}
    need = ("default",)
    shrink_evals = 400
    shrink_secs = 60
    max_report = 2
    max_shrunk = 1

    def setup(self, ctx):            # once, in the parent, before forking
        pass

    def run_batch(self, ctx, idx, src, stats):
        raise NotImplementedError

    def recheck(self, ctx, choices):
        """Re-run the case given by `choices` alone; return a Failure or None (for shrinking/replay)."""
        raise NotImplementedError

    def same(self, f, g):
        """Is f the same kind of failure as g (for reductions of a text)?"""
        return True

    def replay_record(self, ctx, rec):
        """Re-run a stored replay record; default regenerates from its choices."""
        return self.recheck(ctx, rec["choices"])


class Ctx:
    """Per-process context: scratch directory and builds."""

    def __init__(self, tier, seed, builds, base):
        self.tier, self.seed, self.builds, self.base = tier, seed, builds, base
        self._dir = None
        self.n = 0

    @property
    def dir(self):
        if self._dir is None or self._pid != os.getpid():
            self._pid = os.getpid()
            self._dir = tempfile.mkdtemp(prefix="w%d-" % self._pid, dir=self.base)
        return self._dir

    def fresh(self):
        self.n += 1
        d = os.path.join(self.dir, "b%d" % self.n)
        os.mkdir(d)
        return d


_G = {}


def _init_worker():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def seed_for(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


def _work(idx):
    chk, ctx, deadline = _G["chk"], _G["ctx"], _G["deadline"]
    st = Stats()
    if time.time() > deadline:
        st.notes.append("skipped")
        return st
    src = Src(seed_for(ctx.seed, chk.id, idx))
    d = None
    try:
        chk.run_batch(ctx, idx, src, st)
    except Exception:
        st.notes.append("EXC " + traceback.format_exc())
    finally:
        if ctx._dir and ctx._pid == os.getpid():
            shutil.rmtree(ctx._dir, ignore_errors=True)
            ctx._dir = None
    return st


def _recheck(choices):
    chk, ctx = _G["chk"], _G["ctx"]
    try:
        f = chk.recheck(ctx, choices)
    except Exception:
        f = None
    finally:
        if ctx._dir and ctx._pid == os.getpid():
            shutil.rmtree(ctx._dir, ignore_errors=True)
            ctx._dir = None
    return f


def shrink(chk, pool, fail):
    """Choice-stream shrinking: delete chunks, zero chunks, lower values.  Candidates are evaluated in
    parallel and the first (in order) that still fails with the same class is taken."""
    best = list(fail.choices)
    bestf = fail
    t0 = time.time()
    spent = 0
    tried = set()

    def attempt(cands):
        nonlocal best, bestf, spent
        cands = [c for c in cands if tuple(c) not in tried]
        for i in range(0, len(cands), NPROC * 2):
            grp = cands[i:i + NPROC * 2]
            if spent > chk.shrink_evals or time.time() - t0 > chk.shrink_secs:
                return False
            spent += len(grp)
            for c in grp:
                tried.add(tuple(c))
            for c, f in zip(grp, pool.map(_recheck, grp)):
                if f is not None and f.key == bestf.key:
                    best, bestf = list(f.choices if f.choices is not None else c), f
                    return True
        return False

    progress = True
    while progress and spent <= chk.shrink_evals and time.time() - t0 < chk.shrink_secs:
        progress = False
        k = max(1, len(best) // 2)
        while k >= 1:
            again = True
            while again:
                cands = [best[:i] + best[i + k:] for i in range(0, len(best), k)]
                cands = [c for c in cands if len(c) < len(best)]
                again = attempt(cands)
                progress |= again
                if spent > chk.shrink_evals or time.time() - t0 > chk.shrink_secs:
                    break
            k //= 2
            if spent > chk.shrink_evals:
                break
        k = max(1, len(best) // 2)
        while k >= 1:
            cands = [best[:i] + [0] * len(best[i:i + k]) + best[i + k:] for i in range(0, len(best), k)
                     if any(best[i:i + k])]
            if attempt(cands):
                progress = True
                continue
            k //= 2
        cands = []
        for i, v in enumerate(best):
            if v > 1:
                for nv in (1, v // 2, v - 1):
                    if nv < v:
                        cands.append(best[:i] + [nv] + best[i + 1:])
        if attempt(cands):
            progress = True
    return bestf, spent


def _retext(arg):
    chk, ctx = _G["chk"], _G["ctx"]
    try:
        f = chk.judge_text(ctx, *arg)
    except Exception:
        f = None
    finally:
        if ctx._dir and ctx._pid == os.getpid():
            shutil.rmtree(ctx._dir, ignore_errors=True)
            ctx._dir = None
    return f


def reduce_text(chk, pool, fail):
    """Line-level reduction of a failing source text, for checks that judge a text by itself (judge_text)."""
    name = "s.c"
    if name not in fail.files:
        return fail, 0
    lines = fail.files[name].split("\n")
    best, spent, t0 = fail, 0, time.time()
    k = max(1, len(lines) // 2)
    while k >= 1:
        hit = True
        while hit and spent < chk.shrink_evals and time.time() - t0 < chk.shrink_secs:
            hit = False
            cands = [lines[:i] + lines[i + k:] for i in range(0, len(lines), k)]
            for g in range(0, len(cands), NPROC * 2):
                grp = cands[g:g + NPROC * 2]
                spent += len(grp)
                for c, f in zip(grp, pool.map(_retext, [("\n".join(c), best.extra) for c in grp])):
                    if f is not None and f.key == best.key and chk.same(f, best):
                        lines, best, hit = c, f, True
                        break
                if hit or spent >= chk.shrink_evals or time.time() - t0 > chk.shrink_secs:
                    break
        k //= 2
    best.choices = None
    return best, spent


def load_known(prop):
    """known_findings.jsonl: {"property","status":"finding"|"fixed","key","what","replay",...}"""
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                r = json.loads(line)
                if r["property"] == prop:
                    res.append(r)
    return res


def write_replay(prop, rec):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(rec, indent=1, sort_keys=True)
    h = hashlib.blake2b(blob.encode("utf-8", "surrogateescape"), digest_size=6).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(blob)
    return path


def run_check(chk, tier, seed, replay=None, nbatch=None, verbose=False):
    from lib import build
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    base = tempfile.mkdtemp(prefix="verif-%s-" % chk.id, dir="/tmp")
    try:
        return _run_check(chk, tier, seed, replay, nbatch, verbose, base, t0, build)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run_check(chk, tier, seed, replay, nbatch, verbose, base, t0, build):
    try:
        builds = build.get(chk.need, base)
    except build.BuildError as e:
        if not e.is_stage2:
            # the tree does not build: nothing can be decided
            print("BUILD-ERROR %s" % e)
            return 2
        builds = e.partial
        builds["stage2_error"] = str(e)
    ctx = Ctx(tier, seed, builds, base)
    chk.setup(ctx)
    _G.update(chk=chk, ctx=ctx, deadline=t0 + chk.time_cap[tier])
    n = nbatch or chk.batches[tier]
    if replay:
        rec = json.load(open(replay))
        f = chk.replay_record(ctx, rec)
        print("REPLAY %s: %s" % (replay, "FAILS: " + f.what if f else "passes"))
        if f and verbose:
            print(json.dumps(f.record(chk.id), indent=1))
        return 1 if f else 0

    stats = Stats()
    known = load_known(chk.id)
    knownkeys = {k["key"]: k for k in known if k["status"] == "finding"}
    violations = []

    # regression replays (fixed defects) and listed findings
    findings_out = []
    for k in known:
        if not k.get("replay"):
            continue
        rec = json.load(open(os.path.join(VERIF, k["replay"])))
        try:
            f = chk.replay_record(ctx, rec)
        except (KeyError, TypeError) as e:     # a record of an older form of the check: what it needs is not in it
            stats.notes.append("replay %s not run: %s" % (k["replay"], repr(e)[:100]))
            continue
        stats.evals += 1
        if k["status"] == "fixed":
            if f:
                f.what = "regression of a fixed defect: " + f.what
                violations.append(f)
        elif f:
            findings_out.append("KNOWN-FINDING: property=%s %s" % (chk.id, k["what"]))

    pool = mp.get_context("fork").Pool(NPROC, initializer=_init_worker)
    try:
        done = 0
        excs = 0
        for st in pool.imap_unordered(_work, range(n)):
            done += 1
            for x in st.notes:
                if x.startswith("EXC"):
                    excs += 1
                    if excs <= 3:
                        sys.stderr.write(x + "\n")
            stats.merge(st)
            if verbose and (done % 50 == 0 or st.failures):
                sys.stderr.write("[%s] %d/%d batches, %d cases, %d failures, %.0fs\n" % (
                    chk.id, done, n, stats.evals, len(stats.failures), time.time() - t0))
            if len([f for f in stats.failures if f.key not in knownkeys]) >= 40:
                pool.terminate()
                pool.join()
                pool = mp.get_context("fork").Pool(NPROC, initializer=_init_worker)
                break
        skipped = sum(1 for x in stats.notes if x == "skipped")
        # judge failures
        kf = Counter()
        fresh = []
        for f in stats.failures:
            if f.key in knownkeys:
                kf[f.key] += 1
            else:
                fresh.append(f)
        fresh.sort(key=lambda f: (len(f.choices) if f.choices is not None else 1 << 30, f.what))
        seen = set()
        for f in fresh:
            if len(violations) >= chk.max_report:
                break
            if f.choices is not None:
                # replay three times before believing it
                rs = pool.map(_recheck, [f.choices] * 3)
                if not all(r is not None for r in rs):
                    stats.notes.append("unstable: " + f.what)
                    stats.discarded += 1
                    continue
                if len(seen) < chk.max_shrunk:
                    f2, spent = shrink(chk, pool, f)
                    stats.classes["shrink_evaluations"] += spent
                    if hasattr(chk, "judge_text"):
                        f2, spent = reduce_text(chk, pool, f2)
                        stats.classes["shrink_evaluations"] += spent
                else:
                    f2 = f
                if f2.key in knownkeys:
                    kf[f2.key] += 1
                    continue
            else:
                f2 = f
            if f2.what in seen:
                continue
            seen.add(f2.what)
            violations.append(f2)
    finally:
        pool.terminate()
        pool.join()

    for line in findings_out:
        print(line)
    for f in violations:
        path = write_replay(chk.id, f.record(chk.id))
        print("  " + f.what[:400])
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
    ev = {
        "property": chk.id, "tier": tier, "seed": seed, "level": chk.level,
        "coverage": {
            "evaluations": stats.evals, "distinct_nontrivial": len(stats.hashes), "rule": chk.rule,
            "samples": stats.samples[:4], "classes": dict(sorted(stats.classes.items())),
            "batches": n, "batches_skipped_by_time_cap": skipped, "discarded": stats.discarded,
            "excluded_known_findings": dict(kf), "harness_exceptions": excs,
            "notes": sorted(set(x[:300] for x in stats.notes if x != "skipped" and not x.startswith("EXC")))[:10],
        },
        "assumptions": chk.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", chk.id + ".json"), "w", encoding="utf-8", errors="replace") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d distinct non-trivial), %d violations, %d skipped batches, %d exceptions, %.1fs" % (
        chk.id, tier, stats.evals, len(stats.hashes), len(violations), skipped, excs, time.time() - t0))
    if violations:
        return 1
    if excs:
        return 3
    if stats.evals == 0:
        return 4
    return 0
