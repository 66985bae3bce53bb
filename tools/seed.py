#!/usr/bin/env python3
"""Turns a specification of a planted bug into /verif/seeded/<id>/ after confirming it in a scratch copy.

usage: seed.py SPEC.py [id ...]     SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits, demo)]
A seed is kept only if the patch applies, the changed tree builds and passes the 174 stable tests, and the
demonstration passes on the unchanged tree and fails on the changed one.
"""
import json, os, shutil, subprocess, sys, runpy
SCR = os.environ.get('SEED_SCRATCH', '/tmp/w/seedrepo')
OUT = '/verif/seeded'
HERE = os.path.dirname(os.path.abspath(__file__))
PRELUDE = open(f'{HERE}/demo_prelude.rs').read()
DEMO = open(f'{HERE}/demo.sh.in').read()
TOML = open(f'{HERE}/demo_Cargo.toml.in').read()
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=f'{SCR}/target',
           CARGO_TERM_COLOR='never')
def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)
def reset():
    if not os.path.isdir(SCR):
        subprocess.check_call(['cp', '-a', '/repo', SCR])
    sh('git fetch -q "${SEED_REPO:-/repo}" HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq', SCR)
def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = next((base[k] for k in ('passed', 'pass', 'stable', 'tests') if k in base), base)
    names = set(names)
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', SCR)
    log = r.stdout + r.stderr
    ok = {l.split()[1] for l in log.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}
    miss = [n for n in names if not any(n == o or n.endswith('::' + o) or n.endswith(' ' + o) or o == n.split('::', 1)[-1] for o in ok)]
    return miss, log
def demo(folder):
    env = dict(ENV); env.pop('CARGO_TARGET_DIR'); env['DEMO_TARGET_DIR'] = '/tmp/w/demotarget'
    r = sh(f'bash {folder}/demo.sh', SCR, env, 300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    for s in seeds:
        if want and s['id'] not in want: continue
        reset()
        d = f"/tmp/w/seedout/{s['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f'{d}/main.rs', 'w').write(PRELUDE + '\n' + s['demo'].strip() + '\n')
        open(f'{d}/Cargo.toml.in', 'w').write(TOML)
        open(f'{d}/demo.sh', 'w').write(DEMO)
        rc, out = demo(d)
        if rc != 0:
            print(s['id'], 'REJECTED: demo fails on the unchanged tree:', out); continue
        bad = None
        for f, old, new in s['edits']:
            t = open(f'{SCR}/{f}').read()
            if t.count(old) != 1: bad = f'{f}: {t.count(old)} matches of {old!r}'; break
            open(f'{SCR}/{f}', 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'REJECTED:', bad); continue
        open(f'{d}/patch.diff', 'w').write(sh('git diff', SCR).stdout)
        miss, log = tests()
        if miss:
            print(s['id'], 'REJECTED: tests missing', miss[:6], log[-1500:] if len(miss) > 50 else ''); continue
        rc, out = demo(d)
        if rc == 0:
            print(s['id'], 'REJECTED: demo passes with the change'); continue
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        shutil.rmtree(f'{OUT}/{s["id"]}', ignore_errors=True)
        shutil.copytree(d, f'{OUT}/{s["id"]}')
        print(s['id'], 'ok:', out.strip().splitlines()[-1][:200] if out.strip() else rc, flush=True)
    reset()
main()
