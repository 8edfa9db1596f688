#!/usr/bin/env python3
"""mutants.py SEED COUNT FILEREGEX WORKERS OUT: samples changes (cmd/mutate), keeps those that build and pass the
tests, runs the analysis on each and writes one JSON line per change. For experiments; no check uses it."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
seed, count, rx, workers, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), sys.argv[5]
MUT, CK = '/tmp/mutate', os.environ.get('CK', '/tmp/pdftcheck')
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off')
lst = [l.rstrip('\n').split('\t') for l in open('/tmp/mut.list')]
lst = [l for l in lst if re.search(rx, l[1] + ' ' + l[2])]
random.Random(seed).shuffle(lst)
done = set()
if os.path.exists(out):
    done = {json.loads(l)['n'] for l in open(out)}
lst = [l for l in lst[:count] if l[0] not in done]
q = queue.Queue()
for l in lst: q.put(l)
lock = threading.Lock()
def run(cmd, cwd, t, e=env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
def work(w):
    d = '/tmp/mw%d' % w
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d, symlinks=True)
    while True:
        try: l = q.get_nowait()
        except queue.Empty: break
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d)
        subprocess.run([MUT, 'apply', d, l[0]])
        e = dict(env, GOFLAGS='-mod=mod')
        r = {'n': l[0], 'at': l[1], 'fn': l[2], 'kind': l[3], 'what': l[4]}
        rc, o = run(['go', 'build', './...'], d, 120, e)
        if rc: r['res'] = 'nobuild'
        else:
            rc, o = run(['go', 'test', '-count=1', '-timeout', '60s', './...'], d, 150, e)
            if re.search(r'--- FAIL|panic:|timed out|fatal error', o) or rc == 99: r['res'] = 'tests'
            else:
                rc, o = run([CK, 'once'], d, 300, dict(env, VERIF_REPO=d, GOFLAGS='-mod=vendor'))
                hits = re.findall(r'^HIT (\w+)', o, re.M)
                m = re.search(r'undecided (\d+)', o)
                r['und'] = int(m.group(1)) if m else -1
                r['hits'] = hits
                r['res'] = 'caught' if hits else 'missed' if r['und'] == 0 else 'undecided'
        with lock:
            with open(out, 'a') as f: f.write(json.dumps(r) + '\n')
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
