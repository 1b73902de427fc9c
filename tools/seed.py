#!/usr/bin/env python3
"""Confirm planted bugs and store them under /verif/seeded.

usage: seed.py BUGS.py [ID ...]      confirm (build, tests, demo) in a scratch copy and write seeded/<id>/
       seed.py --check [ID ...]      run the property's quick check with each stored bug applied to /repo

BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
`demo` is a shell fragment that uses `run NAME 'expected output' args... < journal` (see HEAD below).
"""
import json, os, shutil, subprocess, sys, runpy
SEED = '/verif/seeded'
SCRATCH = '/tmp/seed'
HEAD = r'''#!/bin/bash
# Exit 0 when the program behaves as the property says, 1 otherwise.
D="$PWD/${CARGO_TARGET_DIR:-target}/debug/dinero"
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r "$W"' EXIT
export HOME="$W"
cd "$W" || exit 2
touch "$W/empty.init"
bad=0
# got ARGS...: normalised standard output of the program on main.ledger, and its exit status
got() {
  timeout 60 "$D" "$@" --init-file "$W/empty.init" >"$W/out" 2>"$W/err"
  local rc=$?
  sed -e 's/\x1b\[[0-9;]*m//g' -e 's/  */ /g' -e 's/^ //' -e 's/ $//' "$W/out"
  [ $rc -eq 0 ] || echo "FAILED"
}
# expect WANT ARGS...: WANT lists the expected lines
expect() {
  local want="$1"; shift
  local have; have=$(got "$@")
  if [ "$have" != "$want" ]; then
    echo "dinero $*"; echo "expected:"; echo "$want"; echo "got:"; echo "$have"; bad=1
  fi
}
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
def build(d):
    r = sh('. /opt/vp/env.sh; cd %s && cargo test --workspace --no-run --offline' % d)
    return r.returncode == 0, r.stdout
def tests(d):
    sh('. /opt/vp/env.sh; cd %s && cargo test --workspace --no-fail-fast --offline -- --test-threads 1 > /tmp/seed.log 2>&1; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log' % d)
    o = json.load(open('/tmp/seed.json'))
    return [x for x in STABLE if x not in o['passed']]
def blame_base(rel, lines):
    r = sh('git -C /repo blame -s dbac9f8..HEAD -- %s' % rel)
    out = r.stdout.split('\n')
    return [l for l in lines if not out[l-1].startswith('^')]
def confirm(b):
    if not os.path.isdir(SCRATCH): sh('cp -a /repo %s' % SCRATCH)
    # no times: a restored file has to look new to cargo
    sh('rsync -rlpc --delete --exclude .git --exclude target /repo/ %s/' % SCRATCH)
    foreign = []
    for f, old, new in b['edits']:
        p = os.path.join(SCRATCH, f); s = open(p).read()
        if s.count(old) < 1: return 'text not found in %s: %r' % (f, old)
        if s.count(old) > 1 and not b.get('nth'): return 'ambiguous text in %s (%d): %r' % (f, s.count(old), old)
        i = s.index(old)
        for _ in range(b.get('nth', 1) - 1): i = s.index(old, i + 1)
        s = s[:i] + new + s[i+len(old):]
        open(p, 'w').write(s)
    diff = ''
    for f in sorted({e[0] for e in b['edits']}):
        r = sh('cd /tmp && git diff --no-index --src-prefix=a/ --dst-prefix=b/ /repo/%s %s/%s' % (f, SCRATCH, f))
        d = r.stdout.replace('a/repo/' + f, 'a/' + f).replace('b' + SCRATCH + '/' + f, 'b/' + f)
        diff += d
        ln = 0; rm = []
        for l in d.split('\n'):
            if l.startswith('@@'): ln = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'): rm.append(ln); ln += 1
            elif l.startswith(' '): ln += 1
        foreign += blame_base(f, rm)
        if not rm: foreign.append('no removed line in ' + f)
    # demo on the unchanged tree
    d = os.path.join(SEED, b['id']); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(HEAD + b['demo'].strip('\n') + '\nexit $bad\n'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    def fail(m): shutil.rmtree(d); return m
    r = sh('git -C /repo apply --check %s/patch.diff' % d)
    if r.returncode: return fail('does not apply: ' + r.stdout)
    r = sh('cd /repo && bash %s/demo.sh' % d)
    if r.returncode: return fail('demo fails on the unchanged tree:\n' + r.stdout)
    ok, out = build(SCRATCH)
    if not ok: return fail('does not build\n' + '\n'.join(l for l in out.split('\n') if 'error' in l)[:2000] + out[-1500:])
    t = tests(SCRATCH)
    if t: return fail('tests fail: %s' % t)
    r = sh('cd %s && bash %s/demo.sh' % (SCRATCH, d))
    if r.returncode == 0: return fail('demo passes with the bug')
    return 'confirmed' + (' (lines not from base: %s)' % foreign if foreign else '')
def check(i):
    d = os.path.join(SEED, i); prop = json.load(open(d + '/meta.json'))['property']
    if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('/repo is not clean')
    sh('git -C /repo apply %s/patch.diff' % d)
    try:
        r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s quick' % prop)
    finally:
        sh('git -C /repo checkout -- .')
    open('/tmp/seedcheck_%s.log' % i, 'w').write(r.stdout)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    return '%s rc=%d %s' % (prop, r.returncode, v[0] if v else ('UNDECIDED' if 'UNDECIDED' in r.stdout else '-'))
if sys.argv[1] == '--check':
    ids = sys.argv[2:] or sorted(os.listdir(SEED))
    for i in ids: print(i, check(i), flush=True)
else:
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
        print(b['id'], confirm(b), flush=True)
