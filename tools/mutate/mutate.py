#!/usr/bin/env python3
"""A mutation campaign: which small changes survive the existing tests and the checks?

usage: mutate.py OUT.jsonl [--workers N] [--minutes M] [--files REGEX] [--seed S] [--list]
Each worker has its own copy of /repo's HEAD and of mc (pointed at the copy) under /tmp/w/mut.
A mutant that compiles and passes the stable tests goes through the checks of its crate, cheapest
first, until one reports a violation. Survivors are logged for analysis.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
ROOT = "/tmp/w/mut"
CHECKS = {
    "llvm-bitcursor": "C02 C04 C05 C03 C01 B03 B01 B05 B06".split(),
    "llvm-bitstream": "B03 B05 B01 B07 B08 B02 B06 M12".split(),
    "llvm-support": "S01 S02 S03 S04 S05 S06 S07 M09 M05 M04 M06 M07 M08 M11".split(),
    "llvm-mapper": "M14 M01 M02 M03 M05 M06 M07 M08 M10 M04 M12 M13 M09 B08 M11".split(),
    "llvm-constants": "S04 S05 M10 B05".split(),
}
SKIP = re.compile(r"src/(verif|error)\.rs$")

def sh(cmd, timeout=900, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")

def rules(line):
    """All mutated versions of a line."""
    out = []
    code = line.split("//")[0] if not '"' in line else line
    if "log::" in line or re.match(r"\s*(//|#\[|use |pub use |mod |pub mod |impl|#!\[)", line) or not code.strip():
        return out
    def sub(pat, rep):
        for m in re.finditer(pat, code):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            out.append(line[:m.start()] + r + line[m.end():])
    sub(r" < (?!')", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > ")
    sub(r" == ", " != "); sub(r" != ", " == ")
    sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r" \* ", " / "); sub(r" / ", " * "); sub(r" % ", " / ")
    sub(r" << ", " >> "); sub(r" >> ", " << "); sub(r" & ", " | "); sub(r" \| (?!\w+::)", " & ")
    sub(r" \+= ", " -= "); sub(r" -= ", " += "); sub(r" \|= ", " = ")
    sub(r"(?<![\w.\"'#])(\d+)(?![\w.\"'])", lambda m: str(int(m.group(1)) + 1))
    sub(r"(?<![\w.\"'#])([1-9]\d*)(?![\w.\"'])", lambda m: str(int(m.group(1)) - 1))
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"(?<=[( ])!(?=[a-z(])", "")
    sub(r"\.\.=", ".."); sub(r"(?<=\w)\.\.(?=[\w(])", "..=")
    sub(r"\bcontinue;", "{}"); sub(r"\bbreak;", "continue;")
    sub(r"\.is_some\(\)", ".is_none()"); sub(r"\.is_none\(\)", ".is_some()"); sub(r"\.is_empty\(\)", ".len() == 1")
    sub(r"\bany\(", "all("); sub(r"\ball\(", "any(")
    sub(r"\.skip\((\d+)\)", ""); sub(r"\.rev\(\)", "")
    sub(r"\bsaturating_sub", "wrapping_sub"); sub(r"\bfirst\(\)", "last()"); sub(r"\blast\(\)", "first()")
    sub(r"\bmax\(", "min("); sub(r"\bmin\(", "max(")
    # Statements and match arms that go.
    if re.match(r"\s*(?!let |return |use |pub |const |type |\}|fn )[\w.:*&(]+.*;\s*$", line) and "=>" not in line:
        out.append("// gone")
    if re.match(r"\s*return Err\(.*;\s*$", line):
        out.append("{}")
    if re.match(r"\s*[^{}]* => [^{]*,\s*$", line):
        out.append("// gone")
    if re.match(r"\s*let [^=]*= [^;]*;\s*$", line) and False:
        pass
    # Swapped numbers and names.
    for m in re.finditer(r"\b(\d+) => ([\w:]+),", code):
        pass
    return out

# The checks that a change to the file itself has to show in, for value mutants.
RELEVANT = [
    ("llvm-bitcursor", "C02 C03 C04 C05 C01"),
    ("llvm-bitstream/src/(parser|record)", "B01 B05 B02 B03 B07 B06"),
    ("llvm-bitstream", "B03 B05 B01 B07"),
    ("llvm-support/src/align", "S01 S06 M09 S07"), ("llvm-support/src/ty", "S02 S07 M04"),
    ("llvm-support/src/attribute", "S04 M05"), ("llvm-support/src/(opcode|constants)", "S04 S05 M06 M07 M08"),
    ("llvm-support", "S07 S03 S06 M09 S04 S05 S01 S02"),
    ("llvm-mapper/src/unroll", "M01 M02 M10 M12 M11"), ("llvm-mapper/src/map", "M10 M06 M03 M02"),
    ("attributes", "M05 M10"), ("type_table", "M04 M11"), ("strtab|symtab", "M03 M02 M01"),
    ("record/alias", "M07"), ("record/function", "M06"), ("comdat", "M08"), ("datalayout", "M09"),
    ("llvm-mapper", "M10 M02 M01 M06 M07 M08 M13"), ("llvm-constants", "S04 S05 M10 B05"),
]
VALUES = [0, 1, 2, 3, 5, 6, 7, 9, 11, 13, 15, 17, 21, 24, 31, 33, 40, 63, 64, 65, 90, 100, 128, 200, 255, 256, 300, 1000, 4096,
          65535, 1 << 20, 1 << 24, 1 << 31, 1 << 32, (1 << 40) + 3, (1 << 64) - 1]

def triggers(line, rnd):
    """The line with one integer expression that's wrong for one value."""
    out = []
    if "log::" in line or '"' in line or re.match(r"\s*(//|#\[|use |pub use |mod |pub mod |impl|pub fn|fn |pub\(|const |#!\[|struct |enum )", line):
        return out
    code = line.split("//")[0]
    for m in re.finditer(r"(?<![\w.&:'])\*?[a-z_]\w*(?:(?:\.\w+(?:::<\w+>)?(?:\([^()]*\))?)|\[[^\[\]]*\])*\??(?![\w(:.!\[{])(?!\s*(?:=[^=]|\+=|-=|=>))", code):
        e = m.group(0)
        if e in ("let", "mut", "if", "else", "match", "return", "for", "in", "while", "self", "as", "u64", "u32", "u8", "usize", "ref", "true", "false", "loop", "break", "continue", "move", "pub", "fn", "bool"):
            continue
        if re.search(r"(let |let mut |for |\|)$", code[:m.start()]) or re.match(r"\s*(:|\|[^|])", code[m.end():]):
            continue
        for k in rnd.sample(VALUES, PER_SITE):
            out.append(line[:m.start()] + "({ let x__ = %s; if x__ == %d { x__ ^ 1 } else { x__ } })" % (e, k) + line[m.end():])
    return out

def mutants(repo, files):
    v = []
    for d, _, fs in sorted(os.walk(repo)):
        if "/target" in d or "/src" not in d:
            continue
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), repo)
            if not p.endswith(".rs") or SKIP.search(p) or "/examples/" in p or not re.search(files, p):
                continue
            lines = open(os.path.join(repo, p)).read().split("\n")
            for i, l in enumerate(lines):
                if l.strip().startswith("#[cfg(test)]"):
                    break
                for r in dict.fromkeys(triggers(l, random.Random(f'{SEED}{p}{i}')) if PER_SITE else rules(l)):
                    if r != l:
                        v.append((p, i, l, r))
    return v

def checks_for(p, crate):
    if PER_SITE:
        return next(c for r, c in RELEVANT if re.search(r, p)).split()
    return CHECKS[crate]

class Worker(threading.Thread):
    def __init__(self, k, queue, lock, out, deadline):
        super().__init__()
        self.k, self.q, self.lock, self.out, self.deadline = k, queue, lock, out, deadline
        self.d = f"{ROOT}/w{k}"
        self.repo, self.mc, self.tgt = self.d + "/repo", self.d + "/mc", self.d + "/target"

    def setup(self):
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        sh(f"git clone -q /repo {self.repo}")
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", self.repo)
        sh(f"mkdir {self.mc} && cd {VERIF} && git archive HEAD mc known-findings.txt | tar x -C {self.d}")
        t = open(self.mc + "/Cargo.toml").read().replace("/repo/", self.repo + "/").replace("opt-level = 2", "opt-level = 1")
        open(self.mc + "/Cargo.toml", "w").write(t)
        sh(f"sed -i 's#/repo/#{self.repo}/#' {self.mc}/Cargo.lock")

    def one(self, m):
        p, i, old, new = m
        path = os.path.join(self.repo, p)
        src = open(path).read().split("\n")
        assert src[i] == old
        src[i] = new
        open(path, "w").write("\n".join(src))
        rec = {"file": p, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            env = dict(os.environ, CARGO_TARGET_DIR=self.tgt + "/t", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
            r = sh(f"cd {self.repo} && cargo test -j2 --offline --workspace --lib", env=env, timeout=300)
            if r.returncode:
                rec["result"] = "build" if "could not compile" in r.stderr else "tests"
                return rec
            env["CARGO_TARGET_DIR"] = self.tgt + "/m"
            env["RUSTFLAGS"] = "--cfg mollusc_verif -Awarnings"
            r = sh(f"cd {self.mc} && cargo build -j3 --release --offline -q", env=env)
            if r.returncode:
                rec["result"] = "mc build"; rec["err"] = r.stderr[-500:]
                return rec
            crate = p.split("/")[0]
            os.makedirs(self.d + "/evidence", exist_ok=True)
            for c in checks_for(p, crate):
                r = sh(f"cd {self.d} && {self.tgt}/m/release/mc {c} --tier quick --jobs 3", timeout=900)
                if "VIOLATION" in r.stdout:
                    rec["result"] = "killed"; rec["by"] = c
                    return rec
                if r.returncode:
                    rec["result"] = "no answer"; rec["by"] = c; rec["err"] = (r.stdout + r.stderr)[-500:]
                    return rec
            rec["result"] = "SURVIVED"
            return rec
        finally:
            sh(f"git -C {self.repo} checkout -q -- .")

    def run(self):
        self.setup()
        while time.time() < self.deadline:
            with self.lock:
                if not self.q:
                    return
                m = self.q.pop()
            t = time.time()
            rec = self.one(m)
            rec["s"] = round(time.time() - t)
            with self.lock:
                with open(self.out, "a") as f:
                    f.write(json.dumps(rec) + "\n")

a = argparse.ArgumentParser()
a.add_argument("out"); a.add_argument("--workers", type=int, default=3); a.add_argument("--minutes", type=float, default=60)
a.add_argument("--files", default="."); a.add_argument("--seed", type=int, default=1); a.add_argument("--list", action="store_true")
a.add_argument("--triggers", type=int, default=0, help="value mutants, this many per expression")
a = a.parse_args()
PER_SITE, SEED = a.triggers, a.seed
ms = mutants("/repo", a.files)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done]
random.Random(a.seed).shuffle(ms)
if a.list:
    from collections import Counter
    print(len(ms), Counter(m[0] for m in ms)); sys.exit()
lock = threading.Lock()
ws = [Worker(k, ms, lock, a.out, time.time() + 60 * a.minutes) for k in range(a.workers)]
[w.start() for w in ws]
[w.join() for w in ws]
print("left:", len(ms))
