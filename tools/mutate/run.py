#!/usr/bin/env python3
"""run.py OUT SECS JOBS CHUNKS FIRST LAST: which mutations neither the checks nor the project's tests notice.

One of CHUNKS mutations is compiled into a copy of the project (see main.go),
the one named by JV_MUT is switched on. ONLY=missed repeats those missed."""
import sys, json, subprocess, os, random, re, shutil, signal, threading, queue
out, secs, jobs, chunks, first, last = sys.argv[1], sys.argv[2], *map(int, sys.argv[3:7])
GO = '/usr/lib/go-1.21/bin/go'
W, M, H = '/tmp/mo', '/tmp/mrepo', '/tmp/mharness'
R = os.environ.get('REPO', '/repo')
PK = ('.', 'internal/unescape', 'internal/atoi', 'internal/jsonnum')
env = dict(os.environ, GOFLAGS='-mod=mod', GOTOOLCHAIN='local', GOPROXY='off')
here = os.path.dirname(os.path.abspath(__file__))
order = os.environ.get('ORDER', 'C02 C08 C15 C01 C04 C12 C16 C25 C24 C14 C22 C17 C09 C10 C11 C13 C23 C26 C06 C05 C18 C07 C28 C27 C29 C03 C19 C20 C21 C30').split()
frac = {'atoi.go': 0.06, 'jsonnum.go': 0.25}
def sh(*c, **k): subprocess.run(c, check=True, env=env, **k)
os.makedirs(W, exist_ok=True)
sh(GO, 'build', '-o', W + '/mutate', 'main.go', cwd=here)
shutil.rmtree(H, ignore_errors=True)
sh('cp', '-a', '/verif/harness', H)
t = open(H + '/go.mod').read().replace('=> /repo', '=> ' + M); open(H + '/go.mod', 'w').write(t)
done = {}
if os.path.exists(out):
    for l in open(out):
        e = json.loads(l); done[e['ID']] = e
lock = threading.Lock()
def run(cmd, t, e, cwd=None):
    p = subprocess.Popen(cmd, env=dict(env, JV_MUT=str(e['ID'])), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return 'hang', ''
def work(k, q):
    while True:
        try: e = q.get_nowait()
        except queue.Empty: return
        e['By'] = None
        for p in order:
            rc, o = run([W + '/jv', '-prop', p, '-workers', str(max(2, 8 // jobs)), '-secs', secs if p not in ('C21', 'C27') else '3', '-noshrink', '-replays', W + '/r', '-evidence', W + '/ev%d.json' % k], float(secs) + 25, e)
            if rc != 0:
                e['By'] = p if rc == 1 else '%s %s' % (p, rc); e['What'] = o[:300]
                break
        if not e['By']:
            b = os.path.basename(os.path.dirname(e['File'])) if '/internal/' in e['File'] else ''
            for t in ([('test-' + b, M + '/internal/' + b)] if b else []) + [('test-.' , M)]:
                rc, o = run([W + '/' + t[0], '-test.failfast', '-test.skip', '^TestDecode2DSliceBool$/^array_2d_bool_6m$'], 90, e, t[1])
                if rc != 0: e['By'] = 'tests'; break
        e['By'] = e['By'] or 'NONE'
        with lock:
            open(out, 'a').write(json.dumps(e) + '\n')
            if e['By'] in ('NONE', 'tests'): print(e['ID'], os.path.basename(e['File']), e['Line'], e['Op'], repr(e['Old'][:70]), '->', repr(e['New'][:60]), ':', e['By'], flush=True)
for chunk in range(first, last + 1):
    shutil.rmtree(M, ignore_errors=True)
    shutil.copytree(R, M, symlinks=True)
    ms = []
    for p in PK:
        r = subprocess.run([W + '/mutate', M + '/' + p, R + '/' + p], cwd=R, env=dict(env, BASE=str(len(ms)), MOD='%d/%d' % (chunk, chunks)), capture_output=True, text=True)
        ms += [json.loads(l) for l in r.stdout.splitlines()]
    random.seed(7)
    ms = [e for e in ms if random.random() < frac.get(os.path.basename(e['File']), 1.0)]
    ms = [e for e in ms if e['ID'] % chunks == chunk]
    if os.environ.get('ONLY') == 'missed': ms = [e for e in ms if done.get(e['ID'], {}).get('By') == 'NONE']
    else: ms = [e for e in ms if e['ID'] not in done]
    random.shuffle(ms)
    print('chunk', chunk, len(ms), flush=True)
    if not ms: continue
    t = open(M + '/jscandec_test.go').read()
    t = re.sub(r'(?m)^//go:embed testdata/array_2d_bool_6m\.json$', '//', t)
    open(M + '/jscandec_test.go', 'w').write(t)
    for p in PK: sh(GO, 'test', '-c', '-vet=off', '-o', W + '/test-' + os.path.basename(p), './' + p, cwd=M)
    sh(GO, 'build', '-o', W + '/jv', './cmd/jv', cwd=H)
    print('built', flush=True)
    q = queue.Queue()
    for e in ms: q.put(e)
    ts = [threading.Thread(target=work, args=(k, q)) for k in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
