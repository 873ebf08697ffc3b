"""touch every source file of REPO whose content differs from what the last build saw but whose
mtime is not newer than that build (content is never changed)"""
import hashlib, json, os, subprocess, sys
repo, db = sys.argv[1], sys.argv[2]
try:
    old = json.load(open(db))
except Exception:
    old = {}
new = {}
for d, ds, fs in os.walk(repo):
    ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules", "docs", "examples")]
    for f in fs:
        if f.endswith((".rs", ".toml", ".lock", ".pest", ".md", ".sparql", ".ttl", ".json")):
            p = os.path.join(d, f)
            try:
                new[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
            except OSError:
                pass
for p, h in new.items():
    if old and old.get(p) != h:
        try:
            os.utime(p)
        except OSError as e:
            print("touch", p, e, file=sys.stderr)
json.dump(new, open(db, "w"))
