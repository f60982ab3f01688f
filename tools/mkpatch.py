#!/usr/bin/env python3
"""mkpatch.py ID PROP FILE <<< 'JSON {old,new,needs,breaks}' : makes seeded/ID/patch.diff and meta.json from a replacement."""
import json, os, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, needs, breaks):
    d = f"{root}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as w:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for f, old, new in edits:
            s = open(f"{w}/{f}").read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
