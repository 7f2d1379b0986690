#!/usr/bin/env python3
"""plant.py ID [CHECK...]: try the planted bug seeded/ID in a scratch copy of /repo: builds? stable tests? demo clean/patched?
and, when checks are named, do their quick tiers report it?"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, checks = sys.argv[1], sys.argv[2:]
S = os.path.join(V, "seeded", pid)
W = "/tmp/plant-" + pid
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)
os.makedirs(W + "/.vp")
for f in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + f).read().replace("/repo", W).replace("/opt/vp/build.sh", W + "/.vp/build.sh")
    open(W + "/.vp/" + f, "w").write(t)


def demo():
    return subprocess.run(["bash", S + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


try:
    subprocess.run(["bash", W + "/.vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = demo()
    print("demo clean:", r.returncode, "" if r.returncode == 0 else "BAD " + r.stdout.decode()[-400:])
    r = subprocess.run(["git", "apply", S + "/patch.diff"], cwd=W)
    if r.returncode:
        sys.exit("patch does not apply")
    r = subprocess.run(["bash", W + "/.vp/test.sh", W + "/.vp/o.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = json.load(open(W + "/.vp/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base["stable"]
    miss = [t for t in base if t not in set(o["passed"])]
    print("tests: passed %d, stable missing %d %s" % (len(o["passed"]), len(miss), miss[:5]))
    r = demo()
    print("demo patched:", r.returncode, "BAD" if r.returncode == 0 else "ok", r.stdout.decode()[-200:])
    for c in checks:
        r = subprocess.run(["python3", V + "/run.py", c, "quick"], env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = r.stdout.decode()
        print(c, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + c in t else "missed", t.strip().split("\n")[0][:300], t.strip().split("\n")[-1][:200])
finally:
    shutil.rmtree(W, ignore_errors=True)
