#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the bugs described in tools/seeds/*.py and verifies them in a scratch copy.

mkseeds.py [id...]: (all of them by default)
  applies, builds, passes the tests, the demonstration fails with it and passes without it.
mkseeds.py -check [id...]: runs the property's quick check against each (in /repo, undone straight afterwards)."""
import sys, os, subprocess, shutil, json, glob, tempfile, re
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
HEAD = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC LC_ALL=C
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
'''
def cli(files, cmds, tool='ledger'):
    """Runs cmds (shell, in a directory with the files; $ledger is the command) and compares their output with the right one."""
    sh = HEAD + 'go build -o "$t/cmd" ./cmd/%s || exit 2\ncp -r "$here/in" "$t/in" && cd "$t/in" || exit 2\n' % tool
    sh += '%s="$t/cmd"\n{\n%s\n} 2>"$t/err" | sed -E "s#^[0-9]{4}/[0-9]{2}/[0-9]{2} [0-9:]{8} ##" >"$t/out"\nif [ -n "$MAKE_EXPECTED" ]; then cp "$t/out" "$MAKE_EXPECTED"; exit 0; fi\ndiff "$here/expected" "$t/out"\n' % (tool, cmds.strip())
    return dict(sh=sh, files={'in/' + k: v for k, v in files.items()}, expected=True)
def gotest(src, race=False, pkg='.', name='zz_demo_test.go'):
    sh = HEAD + 'echo "{\\"Replace\\": {\\"$PWD/%s/%s\\": \\"$here/demo_go.txt\\"}}" >"$t/overlay.json"\n' % (pkg, name)
    sh = sh.replace('$PWD/./', '$PWD/')
    sh += 'go test %s-vet=off -count=1 -overlay "$t/overlay.json" -run "^TestDemo$" ./%s\n' % ('-race ' if race else '', pkg if pkg != '.' else '')
    return dict(sh=sh, files={'demo_go.txt': src}, expected=False)
for f in sorted(glob.glob(os.path.join(here, 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
ids = [s['id'] for s in SEEDS]
assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]

def run(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout, errors='replace')

def make(s):
    d = os.path.join(verif, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for name, text in s['demo']['files'].items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w', newline='').write(text)
    open(os.path.join(d, 'demo.sh'), 'w').write(s['demo']['sh'])
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    env = dict(os.environ)
    if s['demo']['expected']:
        os.makedirs(os.path.join(d, 'in'), exist_ok=True)
        r = run(['bash', os.path.join(d, 'demo.sh')], '/repo', dict(env, MAKE_EXPECTED=os.path.join(d, 'expected')))
        if r.returncode:
            return 'can not make expected: ' + r.stdout
    r = run(['bash', os.path.join(d, 'demo.sh')], '/repo')
    if r.returncode:
        return 'demo fails on the clean tree: ' + r.stdout[-1500:]
    # a scratch worktree
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        run('cp -a /repo/. ' + w, '/')
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return '%s: %d matches of %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        r = run('gofmt -l ' + ' '.join({e[0] for e in s['edits']}), w)
        if r.stdout.strip():
            return 'gofmt: ' + r.stdout
        r = run('git diff', w)
        open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
        # does it touch original lines?
        base = run('git log --format=%H', w).stdout.split()[-1]
        e = dict(env, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', PATH='/opt/veriftools/go1.27.3/bin:' + env['PATH'])
        r = run('go build ./... && go test -vet=off -count=1 ./...', w, e)
        if r.returncode:
            return 'does not build or pass the tests: ' + r.stdout[-1500:]
        r = run(['bash', os.path.join(d, 'demo.sh')], w)
        if r.returncode == 0:
            return 'demo passes with the bug'
        if r.returncode == 2:
            return 'demo is broken: ' + r.stdout[-500:]
        # every removed line must be an original one
        new = []
        for f in {e[0] for e in s['edits']}:
            bl = run(['git', 'blame', '-s', '-l', 'HEAD', '--', f], w).stdout.split('\n')
            own = {i + 1 for i, l in enumerate(bl) if l and l[0] != '^' and not l.startswith(base)}
            n = 0
            for l in run(['git', 'diff', '-U0', '--', f], w).stdout.split('\n'):
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, k = int(m[1]), int(m[2] or 1)
                    new += ['%s:%d' % (f, i) for i in range(a, a + k) if i in own]
                    if k == 0 and (a in own or a + 1 in own):
                        new.append('%s:%d (added there)' % (f, a))
        return 'ok' + (' BUT touches lines of mine: ' + ' '.join(new) if new else '') + '\n    ' + r.stdout.strip().replace('\n', '\n    ')[:700]
    finally:
        shutil.rmtree(w)

args = sys.argv[1:]
check = '-check' in args
args = [a for a in args if a != '-check']
seeds_env = os.environ.get('SEEDS', '1').split()
todo = [s for s in SEEDS if not args or s['id'] in args or s['prop'] in args]
if check:
    assert not run('git status --porcelain', '/repo').stdout.strip(), '/repo is not clean'
    missed = []
    for s in todo:
        p = os.path.join(verif, 'seeded', s['id'], 'patch.diff')
        r = run(['git', 'apply', p], '/repo')
        if r.returncode:
            print(s['id'], 'DOES NOT APPLY', r.stdout); continue
        try:
            out = []
            for v in seeds_env:
                r = run([os.path.join(verif, 'check.sh'), s['prop']], verif, dict(os.environ, VERIF_SEED=v, VERIF_TIER='quick'), timeout=900)
                hit = r.returncode == 1 and 'VIOLATION property=' + s['prop'] in r.stdout
                out.append('caught' if hit else 'MISSED(%d)' % r.returncode)
        finally:
            run('git checkout -- .', '/repo')
        first = [l for l in r.stdout.split('\n') if l.startswith('  ')][:1]
        print('%-28s %s %s %s' % (s['id'], s['prop'], ' '.join(out), first[0][:150] if first else r.stdout[-200:]), flush=True)
        if any(o != 'caught' for o in out):
            missed.append(s['id'])
    print('missed:', missed)
else:
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for s, res in zip(todo, ex.map(make, todo)):
            print('%-28s %s %s' % (s['id'], s['prop'], res), flush=True)
