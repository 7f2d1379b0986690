"""record.py fixed|finding PROP COMMIT KEY 'WHAT' SOURCE.c [FLAGS...]: add a known-findings entry with a committed replay."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
status, prop, commit, key, what, src = sys.argv[1:7]
rel = "replays/%s-%s.json" % (prop, key)
json.dump({"property": prop, "key": key, "source": open(src).read(), "flags": sys.argv[7:]}, open(os.path.join(V, rel), "w"), indent=1)
e = {"property": prop, "status": status, "key": key, "what": what, "replay": rel,
     "entry": "%s: property=%s %s%s" % (status, prop, commit + " " if commit != "-" else "", what)}
if commit != "-":
    e["commit"] = commit
p = os.path.join(V, "known_findings.jsonl")
L = [l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if l.strip() and json.loads(l).get("replay") != rel]
L.append(json.dumps(e))
open(p, "w").write("\n".join(L) + "\n")
