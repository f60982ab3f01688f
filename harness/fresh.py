#!/usr/bin/env python3
"""Make cargo rebuild what changed in /repo by content, whatever the files' times say."""
import glob, hashlib, json, os, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
STAMP = os.path.join(HERE, "target", "repo-content.json")

def digest(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for fn in sorted(files):
            p = os.path.join(root, fn)
            if not os.path.islink(p):
                h.update(p.encode() + b"\0")
                with open(p, "rb") as f:
                    h.update(f.read())
    return h.hexdigest()

now = {os.path.basename(d): digest(d) for d in sorted(glob.glob("/repo/bd-*")) if os.path.isdir(d)}
try:
    old = json.load(open(STAMP))
except (OSError, ValueError):
    old = None
if old != now:
    changed = [c for c in now if old is None or old.get(c) != now[c]]
    if old is not None and changed:
        for fp in glob.glob(os.path.join(HERE, "target", "*", ".fingerprint", "*")):
            name = os.path.basename(fp).rsplit("-", 1)[0]
            # The checks' own crates compile some files of /repo as modules.
            if name in changed or name.startswith("k-"):
                shutil.rmtree(fp, ignore_errors=True)
    os.makedirs(os.path.dirname(STAMP), exist_ok=True)
    with open(STAMP, "w") as f:
        json.dump(now, f)
