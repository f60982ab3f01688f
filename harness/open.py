#!/usr/bin/env python3
"""open.py CRATE...: an "open copy" of crates of /repo under harness/open, whose private modules are public.

Nothing else differs from /repo's sources: `mod x;` becomes `pub mod x;` and `pub(crate)`/`pub(super)` become `pub`.
Files are rewritten only when their content changed, so cargo rebuilds exactly what changed.
"""
import os, re, sys, tomllib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))["workspace"]["dependencies"]

def value(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, str): return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, list): return "[" + ", ".join(value(x) for x in v) + "]"
    if isinstance(v, dict): return "{ " + ", ".join(f"{k} = {value(x)}" for k, x in v.items()) + " }"
    return str(v)

def dep(name, d, crate):
    d = {"version": d} if isinstance(d, str) else dict(d)
    if d.pop("workspace", False):
        w = root[name]
        w = {"version": w} if isinstance(w, str) else dict(w)
        feats = list(w.get("features", [])) + list(d.pop("features", []))
        w.update(d)
        if feats: w["features"] = sorted(set(feats))
        d = w
    if "path" in d:
        d["path"] = os.path.normpath(os.path.join(REPO, crate, d["path"]))
    return d

def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(text)

def opened(text):
    out, test = [], False
    for line in text.split("\n"):
        if not test: line = re.sub(r"^mod (\w+);", r"pub mod \1;", line)
        line = re.sub(r"\bpub\((crate|super|in [\w:]+)\) ", "pub ", line)
        s = line.strip()
        test = s.startswith("#[cfg(test)]") or (test and s.startswith("#["))
        out.append(line)
    return "\n".join(out)

for crate in sys.argv[1:]:
    t = tomllib.load(open(f"{REPO}/{crate}/Cargo.toml", "rb"))
    dst = f"{HERE}/open/{crate}"
    lines = ["[workspace]", "[package]", f'name = "open-{crate}"', 'version = "1.0.0"', 'edition = "2021"', 'publish = false', "[lib]", f'name = "{crate.replace("-", "_")}"', 'path = "src/lib.rs"']
    for sec in ("dependencies", "build-dependencies"):
        if sec in t:
            lines.append(f"[{sec}]")
            for n, d in sorted(t[sec].items()): lines.append(f"{n} = {value(dep(n, d, crate))}")
    if "features" in t:
        lines.append("[features]")
        for n, d in t["features"].items(): lines.append(f"{n} = {value(d)}")
    put(f"{dst}/Cargo.toml", "\n".join(lines) + "\n")
    have = set()
    for r, dirs, files in os.walk(f"{REPO}/{crate}/src"):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(r, f), f"{REPO}/{crate}")
            have.add(rel)
            text = open(os.path.join(r, f)).read()
            put(f"{dst}/{rel}", opened(text) if f.endswith(".rs") else text)
    for r, dirs, files in os.walk(f"{dst}/src"):
        for f in files:
            p = os.path.join(r, f)
            if os.path.relpath(p, dst) not in have: os.unlink(p)
