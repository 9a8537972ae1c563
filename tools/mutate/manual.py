#!/usr/bin/env python3
"""Manual mutations: single edits that break a property in some unusual case, without a demonstration.

usage: manual.py LIST.py [--only SUBSTRING]   (LIST.py defines M = [(id, properties, file, old, new), ...];
old and new may be lists)

Applies each edit to a scratch clone of /repo, checks that the existing tests still pass, and runs the quick checks
of the properties given. Prints what isn't caught. Never touches /repo."""
import os, runpy, subprocess, sys, time
W = os.environ.get('MANUAL_DIR', '/tmp/w/manual')
REPO, MC = W + '/repo', W + '/mc'
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
def sh(cmd, t=900, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, env=dict(ENV, **kw))
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, str(e.stdout), 'timeout')
def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(REPO): sh(f'git clone -q /repo {REPO}')
    sh(f'cd {REPO} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && cp -n /repo/Cargo.lock . ')
    sh(f'mkdir -p {MC} && cp -a {V}/mc/src {V}/mc/Cargo.toml {V}/mc/Cargo.lock {MC}/ && cp {V}/known-findings.txt {W}/ && sed -i "s|/repo/|{REPO}/|; s|\\.\\./\\.\\./repo/|{REPO}/|" {MC}/Cargo.toml')
def build(): return sh(f'cargo build --release --offline --quiet --manifest-path {MC}/Cargo.toml', RUSTFLAGS='--cfg mollusc_verif -Awarnings', CARGO_TARGET_DIR=W + '/target')
def main():
    setup()
    ms = runpy.run_path(sys.argv[1])['M']
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else ''
    bad = 0
    for id, props, file, old, new in ms:
        if only not in id: continue
        p = f'{REPO}/{file}'
        s = open(p).read()
        pairs = [(old, new)] if isinstance(old, str) else list(zip(old, new))
        if any(s.count(o) != 1 for o, _ in pairs):
            print(f'{id}: {[s.count(o) for o, _ in pairs]} places', flush=True); bad += 1; continue
        t = s
        for o, n in pairs: t = t.replace(o, n)
        open(p, 'w').write(t)
        try:
            t = sh(f'cargo test --offline --quiet --manifest-path {REPO}/Cargo.toml', RUSTFLAGS='-Awarnings', CARGO_TARGET_DIR=W + '/tests')
            if t.returncode != 0:
                why = 'does not build' if 'could not compile' in t.stderr else 'fails the tests'
                print(f'{id}: {why}', flush=True)
                if why != 'fails the tests': print(t.stderr[:1500])
                continue
            if build().returncode != 0:
                print(f'{id}: mc does not build', flush=True); continue
            out = []
            for c in props.split():
                t0 = time.time()
                r = sh(f'cd {W} && {W}/target/release/mc {c} --tier quick')
                out.append((c, r.returncode, round(time.time() - t0)))
                if r.returncode == 1: break
            ok = any(r == 1 for _, r, _ in out)
            bad += not ok
            print(f'{id}: {"caught" if ok else "MISSED"} {out}', flush=True)
        finally:
            open(p, 'w').write(s)
    print('not caught:', bad)
main()
