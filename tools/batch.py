#!/usr/bin/env python3
"""Tries changes quickly: batch.py FILE [ids]. FILE defines bugs = [(name, property, file, old, new), ...]; each is applied to a
scratch copy of /repo (never to /repo itself), built, tested and run through the quick check of its property only."""
import sys, os, re, shutil, subprocess, threading, queue
bugs = {}
exec(open(sys.argv[1]).read(), bugs)
bugs = bugs['bugs']
only = sys.argv[2:]
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', TZ='UTC', LC_ALL='C')
env.pop('LEDGER_FILE', None)
CMDS = dict(acc='C14 C16 C34 C35', muscular='C30 C35', ledger='C08 C12 C14 C15 C17 C18 C19 C23 C24 C28 C31 C33 C34 C35 C36')
def sh(cmd, cwd, timeout=600):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True, errors='replace')
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, 'timeout'
def one(b, d):
    name, prop, edits = b[0], b[1], (b[2] if isinstance(b[2], list) else [(b[2], b[3], b[4])])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/bin'); os.makedirs(d + '/v/evidence')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % (d + '/repo'), shell=True) if os.makedirs(d + '/repo') is None else 0
    shutil.copytree('/verif/harness', d + '/src'); shutil.copy('/verif/known_findings.txt', d + '/v/')
    g = open(d + '/src/go.mod').read().replace('=> /repo', '=> ' + d + '/repo'); open(d + '/src/go.mod', 'w').write(g)
    for f, old, new in edits:
        s = open(d + '/repo/' + f).read()
        if s.count(old) != 1:
            return 'EDIT %d matches' % s.count(old)
        open(d + '/repo/' + f, 'w').write(s.replace(old, new))
    rc, o = sh('go build ./... && go test -vet=off -count=1 . ./backend/ledger', d + '/repo')
    if rc:
        return 'BUILD/TESTS ' + o[-400:]
    bl = ['verifharness .'] + [c + ' github.com/cespedes/accounting/cmd/' + c for c in CMDS if prop in CMDS[c]]
    if prop == 'C13': bl.append('verifharness-race -race .')
    if prop == 'C26': bl.append('regprobe ./regprobe')
    for x in bl:
        rc, o = sh('go build -o %s/bin/%s' % (d, x), d + '/src')
        if rc: return 'BUILD ' + o[-400:]
    if prop == 'C32':
        os.makedirs(d + '/tableview'); shutil.copy(d + '/src/tableview/tableview.go.txt', d + '/tableview/tableview.go')
        open(d + '/tableview/go.mod', 'w').write('module github.com/cespedes/tableview\n')
        shutil.copy(d + '/repo/go.sum', d + '/browse.sum')
        open(d + '/browse.mod', 'w').write(open(d + '/repo/go.mod').read() + '\nreplace github.com/cespedes/tableview => ' + d + '/tableview\n')
        rc, o = sh('go build -modfile %s/browse.mod -o %s/bin/tacc ./cmd/tacc && go build -modfile %s/browse.mod -o %s/bin/ledger-browse ./cmd/ledger' % (d, d, d, d), d + '/repo')
        if rc: return 'BUILD ' + o[-400:]
    rc, o = sh('%s/bin/verifharness -prop %s -tier quick -seed 1 -verif %s/v -bin %s/bin' % (d, prop, d, d), d + '/bin', 900)
    return {0: 'MISSED', 1: 'caught'}.get(rc, 'rc %d' % rc) + ' ' + [l for l in o.strip().split('\n') + [''] if not l.startswith('VIOLATION')][0][:150]
q = queue.Queue()
for b in bugs:
    if not only or b[0] in only or b[1] in only: q.put(b)
lock = threading.Lock()
def worker(k):
    d = '/tmp/bt/%d' % k
    while True:
        try: b = q.get_nowait()
        except queue.Empty: break
        try: r = one(b, d)
        except Exception as e: r = 'exception %r' % e
        with lock: print('%-28s %s %s' % (b[0], b[1], r), flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
