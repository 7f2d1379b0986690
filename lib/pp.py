"""Differential preprocessing: many generated units per file, token sequences of slimcc -E against gcc -E and clang -E."""
import os, re
from lib import cc
from lib.engine import Check, Failure, Src

TOK = re.compile(r'''
  (?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*"|(?:u8|u|U|L)?'(?:\\.|[^'\\\n])*')
 |(?P<num>\.?[0-9](?:[eEpP][+-]|'[0-9A-Za-z_]|[0-9A-Za-z_.$]|[^\x00-\x7f])*)
 |(?P<id>(?:[A-Za-z_$]|[^\x00-\x7f])(?:[A-Za-z0-9_$]|[^\x00-\x7f])*)
 |(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\*=|/=|%=|\+=|-=|&=|\^=|\|=|\#\#|.)
''', re.X | re.S)


def tokens(text):
    text = re.sub(r"\\U([0-9a-f]{8})", lambda m: chr(int(m.group(1), 16)), text)  # gcc -E spells identifiers so
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c in " \t\n\v\f\r":
            i += 1
            continue
        m = TOK.match(text, i)
        t = m.group(0)
        while t.startswith('"./'):        # __FILE__ of a quoted include: gcc drops "./"
            t = '"' + t[3:]
        out.append(t.replace("/./", "/") if t[0] == '"' else t)
        i = m.end()
    return out


def split(text, mark):
    res, cur = {}, None
    for t in tokens(text):
        m = mark.match(t)
        if m:
            cur = int(m.group(1))
            res.setdefault(cur, [])
        elif cur is not None:
            res[cur].append(t)
    return res


class PPCheck(Check):
    technique = "property-based testing: generated macro systems and directives, token sequence compared with gcc -E and clang -E"
    level_note = "Random exploration with a fixed seed: no absence claim. A difference counts only if gcc and clang agree with each other."
    units_per_batch = 40
    modes = [(["-std=gnu2x"], ["-std=gnu2x"]), (["-std=c23"], ["-std=c2x"])]      # slimcc's flags, the references' flags
    common = []
    base_files = {}
    unit_mode = 0           # set by gen_unit
    MARK = re.compile(r"MARK_(\d+)_$")

    def gen_unit(self, src, uid):
        """(text, files, nontrivial, classes)"""
        raise NotImplementedError

    def assemble(self, units):
        return "".join("\nMARK_%d_ \n%s\n" % (i, t) for i, t in units) + "\nMARK_9999_\n"

    def pp(self, d, argv, name):
        r = cc.run([*argv, *self.common, "-E", "-P", name], cwd=d, timeout=30)
        return r, split(r.out, self.MARK)

    def gcc(self, d, name, mode):
        return self.pp(d, ["gcc", "-w", *self.modes[mode][1]], name)

    def run_batch(self, ctx, idx, src, stats):
        d = ctx.fresh()
        units, logs = [], {}
        for i in range(self.units_per_batch):
            s = Src(src.bits(62))
            u = self.gen_unit(s, i)
            if u is None:
                continue
            text, files, nt, cls = u
            for n, c in files.items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                cc.write(os.path.join(d, n), c)
            units.append((i, text, self.unit_mode))
            logs[i] = s.log
            stats.case(text + "".join(files.values()), nt, cls)
        for mode in range(len(self.modes)):
            group = [u[:2] for u in units if u[2] == mode]
            if group:
                self.run_group(ctx, d, group, mode, logs, stats)

    def run_group(self, ctx, d, units, mode, logs, stats):
        # drop what the reference rejects
        for _ in range(10):
            text = self.assemble(units)
            cc.write(os.path.join(d, "u.c"), text)
            r, ref = self.gcc(d, "u.c", mode)
            if r.rc == 0:
                break
            lines = text.split("\n")
            owner, cur = {}, None
            for ln, l in enumerate(lines, 1):
                m = re.match(r"MARK_(\d+)_", l)
                if m:
                    cur = int(m.group(1))
                owner[ln] = cur
            bad = {owner.get(int(x)) for x in re.findall(r"^u\.c:(\d+):(?:\d+:)? (?:fatal )?error", r.err, re.M)}
            bad |= {owner.get(int(x)) for x in re.findall(r"from u\.c:(\d+)[:,]", r.err)}
            bad |= {int(x) for x in re.findall(r"unterminated argument list invoking macro \"\w+_(\d+)\"", r.err)}
            n0 = len(units)
            if os.environ.get("VERIF_DUMPBAD") and bad:
                open(os.path.join(os.environ["VERIF_DUMPBAD"], "bad%d.txt" % os.getpid()), "a").write(r.err)
            units = [u for u in units if u[0] not in bad]
            stats.discarded += n0 - len(units)
            stats.classes["refused_by_reference"] += n0 - len(units)
            if len(units) == n0:
                stats.notes.append("reference refuses whole batch: " + r.err[:200])
                return
        else:
            stats.notes.append("reference still refuses: " + r.err[:200])
            return
        done = set()
        for _ in range(8):
            r, got = self.pp(d, [ctx.builds["default"], *self.modes[mode][0]], "u.c")
            m = re.findall(r"^u\.c:(\d+):", r.err, re.M) if r.rc else []
            owner, cur = {}, None
            for ln, l in enumerate(self.assemble(units).split("\n"), 1):
                mm = re.match(r"MARK_(\d+)_", l)
                if mm:
                    cur = int(mm.group(1))
                owner[ln] = cur
            if r.rc == 0 or not m or owner.get(int(m[-1])) is None:
                break
            # slimcc gives up at the first error: judge that unit and go on without it
            i = owner[int(m[-1])]
            if os.environ.get("VERIF_DUMPBAD"):
                open(os.path.join(os.environ["VERIF_DUMPBAD"], "unconf.txt"), "a").write(r.err)
            self.confirm(ctx, logs[i], stats)
            done.add(i)
            units = [u for u in units if u[0] != i]
            cc.write(os.path.join(d, "u.c"), self.assemble(units))
        r1, ref = self.gcc(d, "u.c", mode) if done else (None, ref)
        bad = [i for i, _ in units if got.get(i) != ref.get(i)]
        if r.rc and not bad:
            bad = [u[0] for u in units]
        for i in bad[:6]:
            self.confirm(ctx, logs[i], stats)

    def confirm(self, ctx, log, stats):
        f = self.recheck(ctx, log)
        if f:
            stats.failures.append(f)
        else:
            stats.discarded += 1
            stats.classes["unconfirmed_differences"] += 1

    def recheck(self, ctx, choices):
        s = Src(choices=list(choices))
        u = self.gen_unit(s, 0)
        if u is None:
            return None
        text, files, nt, cls = u
        f = self.judge(ctx, self.assemble([(0, text)]), files, self.unit_mode)
        if f:
            f.choices = s.log
            f.key = self.classify(f)
        return f

    def classify(self, f):
        return None

    def replay_record(self, ctx, rec):
        if rec.get("source") is None:
            return Check.replay_record(self, ctx, rec)
        return self.judge(ctx, rec["source"], dict(self.base_files, **(rec.get("files") or {})),
                          1 if "-std=c23" in (rec.get("flags") or []) and len(self.modes) > 1 else 0)

    def judge(self, ctx, text, files, mode):
        d = ctx.fresh()
        for n, c in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            cc.write(os.path.join(d, n), c)
        cc.write(os.path.join(d, "u.c"), text)
        r, got = self.pp(d, [ctx.builds["default"], *self.modes[mode][0]], "u.c")
        r1, ref = self.gcc(d, "u.c", mode)
        if r1.rc:
            return None
        r2, ref2 = self.pp(d, ["clang", "-w", *self.modes[mode][1]], "u.c")
        if r2.rc or ref != ref2:
            if os.environ.get("VERIF_DUMPBAD"):
                open(os.path.join(os.environ["VERIF_DUMPBAD"], "disputed.txt"), "a").write(text + "\nGCC %s\nCLANG %s\nSLIMCC %s\n=======\n" % (r1.out, r2.out, r.out))
            return None
        if r.rc == 0 and got == ref:
            return None
        a = " ".join(sum((v for k, v in sorted(got.items())), []))
        b = " ".join(sum((v for k, v in sorted(ref.items())), []))
        return Failure("preprocessing differs (rc=%s %s): got [%s] want [%s]" % (r.rc, r.err[-150:], a[:150], b[:150]), dict(files, **{"s.c": text}), expected=b[:3000], actual=(a + "\n" + r.err)[:3000],
                       cmd="slimcc %s -E -P s.c" % " ".join([*self.modes[mode][0], *self.common]))
