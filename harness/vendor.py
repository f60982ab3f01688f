#!/usr/bin/env python3
"""Lay out an offline cargo "directory source" in /verif/harness/vendor.

Takes .crate archives from the crate caches that are already on this machine, plus the stand-ins
in /verif/shims for dependencies that are in neither cache. With --all every cached crate is
extracted (used when regenerating lock files); otherwise only what the committed Cargo.lock files
name.
"""
import glob, hashlib, json, os, re, shutil, sys, tarfile

HERE = os.path.dirname(os.path.abspath(__file__))
VENDOR = os.path.join(HERE, "vendor")
SHIMS = os.path.join(os.path.dirname(HERE), "shims")
CACHES = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/cache/*")))


def locked():
    want = set()
    for lock in glob.glob(os.path.join(HERE, "*", "Cargo.lock")):
        text = open(lock).read()
        for m in re.finditer(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "([^"]+)"', text):
            want.add(f"{m.group(1)}-{m.group(2)}")
    return want


def shim_names():
    out = {}
    for d in sorted(glob.glob(os.path.join(SHIMS, "*"))):
        toml = open(os.path.join(d, "Cargo.toml")).read()
        name = re.search(r'^name\s*=\s*"([^"]+)"', toml, re.M).group(1)
        ver = re.search(r'^version\s*=\s*"([^"]+)"', toml, re.M).group(1)
        out[f"{name}-{ver}"] = d
    return out


def main():
    os.makedirs(VENDOR, exist_ok=True)
    shims = shim_names()
    shim_crates = {re.sub(r"-\d+\..*$", "", n) for n in shims}
    want = None if "--all" in sys.argv else locked()
    for cache in CACHES:
        for path in sorted(glob.glob(os.path.join(cache, "*.crate"))):
            base = os.path.basename(path)[: -len(".crate")]
            if base in shims or (want is not None and base not in want):
                continue
            if re.sub(r"-\d+\..*$", "", base) in shim_crates:
                continue
            dst = os.path.join(VENDOR, base)
            done = os.path.join(dst, ".cargo-checksum.json")
            if os.path.exists(done):
                continue
            shutil.rmtree(dst, ignore_errors=True)
            data = open(path, "rb").read()
            with tarfile.open(path, "r:gz") as t:
                t.extractall(VENDOR, filter="data")
            patch(base, dst)
            with open(done, "w") as f:
                json.dump({"files": {}, "package": hashlib.sha256(data).hexdigest()}, f)
    for name, src in shims.items():
        dst = os.path.join(VENDOR, name)
        digest = hashlib.sha256()
        for root, _, files in sorted(os.walk(src)):
            for fn in sorted(files):
                digest.update(fn.encode())
                digest.update(open(os.path.join(root, fn), "rb").read())
        stamp = os.path.join(dst, ".stamp")
        if os.path.exists(stamp) and open(stamp).read() == digest.hexdigest():
            continue
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst)
        with open(os.path.join(dst, ".cargo-checksum.json"), "w") as f:
            json.dump({"files": {}}, f)
        with open(stamp, "w") as f:
            f.write(digest.hexdigest())
    if want is not None:
        have = set(os.listdir(VENDOR))
        missing = sorted(w for w in want if w not in have)
        if missing:
            print("missing crates:", missing, file=sys.stderr)
            return 1
    return 0


def patch(base, dst):
    """flate2's zlib back ends need libz-sys; map them onto the pure Rust back end."""
    if base.startswith("flate2-"):
        p = os.path.join(dst, "Cargo.toml")
        t = open(p).read()
        for feat in ("zlib", "zlib-ng", "zlib-default", "zlib-ng-compat", "cloudflare_zlib", "zlib-rs"):
            t = re.sub(rf'(?m)^{feat} = \[[^\]]*\]', f'{feat} = ["rust_backend"]', t)
        for dep in ("libz-sys", "libz-ng-sys", "cloudflare-zlib-sys", "libz-rs-sys", "zlib-rs"):
            t = re.sub(rf'(?ms)^\[dependencies\.{dep}\]\n.*?(?=^\[|\Z)', "", t)
        open(p, "w").write(t)


if __name__ == "__main__":
    sys.exit(main())
