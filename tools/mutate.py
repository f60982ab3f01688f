#!/usr/bin/env python3
"""Mutation campaign over copies of /repo and /verif, in a mount namespace of its own.

  mutate.py lane N                       makes the copies /tmp/mut/laneN/{repo,verif}
  mutate.py run N OUT FILE:CRATE:IDS...  mutates each FILE of the copy in turn, IDS (comma separated) deciding
  mutate.py adv N OUT adversary.py...    applies each of the edits that a file lists, in turn: ("name", "FILE", "old", "new", "CRATE", "IDS")
Survivors are printed; nothing outside the lane is touched. Not used by any check.
"""
import json, os, random, re, subprocess, sys, time

OPS = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![-=<])<=", "<"), (r"(?<![-=>])>=", ">"),
    (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"&&", "||"), (r"\|\|(?= )", "&&"),
    (r"(?<=[a-z0-9)\]] )\+(?= [a-z0-9(])", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"),
    (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"(?<![a-z_])!(?=[a-z(])", ""), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"),
    (r"\bis_ok\b", "is_err"), (r"\bis_err\b", "is_ok"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bif (?!let)(?=[a-z!(])", "if true || "), (r"\bif (?!let)(?=[a-z!(])", "if false && "),
    (r"\.rev\(\)", ""), (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"), (r"\bSome\(([a-z_.]+)\)(?= *[,}\n])", "None"),
    (r"\bOrdering::Less\b", "Ordering::Greater"), (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"insert\(0, ", "push("),
    (r"\bOk\(true\)", "Ok(false)"), (r"(?<![\w\"])(\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + 1)),
    (r'"([a-z_]{3,})"', lambda m: '"' + m.group(1) + 'x"'),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.front\(\)", ".back()"), (r"push_back", "push_front"), (r"pop_front", "pop_back"),
    (r"\.intersection\(", ".difference("), (r"\.find\(", ".rfind("), (r"\.rfind\(", ".find("),
    (r"\bstarts_with\b", "ends_with"), (r"\.and_then\(", ".and_then("), (r"saturating_sub", "saturating_add"),
    (r"\bnow\b", "now"),
]
SKIP = re.compile(r"^\s*(//|#\[|use |pub use |log::|tracing::|debug_assert|const_assert|assert|\}|mod |pub mod )")

def mutants(text):
    lines = text.split("\n")
    out = []
    depth = 0
    for i, line in enumerate(lines):
        if "#[cfg(test)]" in line and re.match(r"mod \w+ *\{", lines[i + 1] if i + 1 < len(lines) else ""):
            break
        if SKIP.match(line):
            continue
        code = line.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[: m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():]
                if new != code:
                    out.append((i, new))
        if re.match(r"^\s+(self\.|\*?[a-z_.]+(\(|\.|\s[-+]?=\s)).*;\s*$", code) and not re.match(r"^\s*(return|let|break|continue)", code):
            out.append((i, "// deleted"))
        if re.match(r"^\s+return\b.*;$", code):
            out.append((i, "// deleted"))
    return lines, out

def lane(n):
    d = f"/tmp/mut/lane{n}"
    subprocess.run(["rm", "-rf", d], check=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif", d + "/verif"], check=True)

def inside(n, out, specs, limit, seed):
    rnd = random.Random(seed)
    log = open(out, "a")
    for spec in specs:
        file, crate, ids = spec.split(":")
        p = "/repo/" + file
        text = open(p).read()
        lines, ms = mutants(text)
        rnd.shuffle(ms)
        ms = ms[:limit]
        res = {"caught": 0, "build": 0, "survived": 0, "other": 0}
        for i, new in ms:
            l = list(lines)
            l[i] = new
            open(p, "w").write("\n".join(l))
            state = "survived"
            for cid in ids.split(","):
                try:
                    r = subprocess.run(["/verif/run.sh", crate, cid], capture_output=True, text=True, timeout=400)
                    rc, err = r.returncode, r.stderr
                except subprocess.TimeoutExpired:
                    rc, err = 124, ""
                if rc == 2:
                    state = "build"
                    break
                if rc == 1:
                    state = "caught"
                    break
                if rc != 0:
                    state = "other"
            res[state] += 1
            if state in ("survived", "other"):
                print(f"{state} {file}:{i+1}: {lines[i].strip()}  ==>  {new.strip()}", file=log, flush=True)
        open(p, "w").write(text)
        print(f"SUMMARY {file} {json.dumps(res)}", file=log, flush=True)

def judge(crate, ids):
    state = "survived"
    for cid in ids.split(","):
        try:
            r = subprocess.run(["/verif/run.sh", crate, cid], capture_output=True, text=True, timeout=600)
            rc, err = r.returncode, (r.stdout + r.stderr)
        except subprocess.TimeoutExpired:
            rc, err = 124, ""
        if rc == 1:
            return "caught", cid + ": " + err.strip()[:160].replace("\n", " ")
        if rc == 2:
            return "build", err[-300:]
        if rc != 0:
            state = f"exit {rc}"
    return state, ""

def adversary(out, files):
    log = open(out, "a")
    only = os.environ.get("ONLY")
    for f in files:
        for name, file, old, new, crate, ids in eval(open(f).read()):
            if only and not re.search(only, name):
                continue
            p = "/repo/" + file
            text = open(p).read()
            if text.count(old) != 1:
                print(f"NOT ONCE {name}: {text.count(old)}", file=log, flush=True)
                continue
            open(p, "w").write(text.replace(old, new))
            try:
                state, how = judge(crate, ids)
            finally:
                open(p, "w").write(text)
            print(f"{state.upper() if state != 'caught' else state} {name} [{ids}] {how}", file=log, flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "lane":
        lane(sys.argv[2])
    elif sys.argv[1] in ("run", "adv"):
        how = {"run": "inside", "adv": "advinside"}[sys.argv[1]]
        n, out = sys.argv[2], sys.argv[3]
        d = f"/tmp/mut/lane{n}"
        cmd = f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && exec python3 /verif/tools/mutate.py {how} {n} {out} " + " ".join(sys.argv[4:])
        env = dict(os.environ, VERIF_NOVENDOR="1")
        os.execvpe("unshare", ["unshare", "-Urm", "bash", "-c", cmd], env)
    elif sys.argv[1] == "advinside":
        adversary(sys.argv[3], sys.argv[4:])
    else:
        inside(sys.argv[2], sys.argv[3], sys.argv[4:], int(os.environ.get("LIMIT", "60")), int(os.environ.get("MSEED", "1")))
