#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], pkg='.', test=go test source, needs, breaks)].
Makes a scratch copy of /repo, checks the demonstration passes, applies the edits, checks that everything still builds,
the stable tests pass and the demonstration fails, and writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile, importlib.util
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# runs the test beside this file inside package %s of the repository in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -n "$HOME" ] || export HOME=/root
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
echo "{\\"Replace\\":{\\"$PWD/%szz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$tmp/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestZZDemo$' ./%s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable(cwd):
    os.makedirs(cwd+'/test/out', exist_ok=True)
    bad = []
    byp = {}
    for t in BASE:
        p, n = t.rsplit('/', 1); byp.setdefault(p, []).append(n)
    for p, ns in byp.items():
        r = sh(['go', 'test', '-vet=off', '-count=1', '-v', '-run', '^(%s)$' % '|'.join(ns), p], cwd)
        for n in ns:
            if '--- PASS: %s ' % n not in r.stdout: bad.append(p+'/'+n)
    return bad
def main():
    spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    for s in m.SEEDS:
        if want and s['id'] not in want: continue
        d = '/verif/seeded/' + s['id']
        w = tempfile.mkdtemp(prefix='seed'); repo = w + '/repo'
        try:
            shutil.copytree('/repo', repo, symlinks=True)
            dd = w + '/demo'; os.makedirs(dd)
            pkg = s.get('pkg', '.'); pre = '' if pkg == '.' else pkg + '/'
            open(dd+'/demo.sh', 'w').write(DEMO % (pkg, pre, pkg)); os.chmod(dd+'/demo.sh', 0o755)
            open(dd+'/demo_test.go.txt', 'w').write(s['test'])
            r = sh(['bash', dd+'/demo.sh'], repo)
            if r.returncode != 0: print(s['id'], 'DEMO FAILS ON UNCHANGED', r.stdout[-1500:]); continue
            ok = True
            for f, old, new in s['edits']:
                t = open(repo+'/'+f).read()
                if t.count(old) != 1: print(s['id'], 'EDIT matches', t.count(old), f, old[:60]); ok = False; break
                open(repo+'/'+f, 'w').write(t.replace(old, new))
            if not ok: continue
            r = sh(['go', 'build', './...'], repo)
            if r.returncode: print(s['id'], 'DOES NOT BUILD', r.stdout); continue
            bad = stable(repo)
            if bad: print(s['id'], 'BREAKS TESTS', bad); continue
            r = sh(['bash', dd+'/demo.sh'], repo)
            if r.returncode == 0: print(s['id'], 'DEMO PASSES WITH PATCH'); continue
            if '[build failed]' in r.stdout: print(s['id'], 'DEMO DOES NOT BUILD', r.stdout); continue
            diff = sh(['git', 'diff'], repo).stdout
            os.makedirs(d, exist_ok=True)
            open(d+'/patch.diff', 'w').write(diff)
            shutil.copy(dd+'/demo.sh', d+'/demo.sh'); shutil.copy(dd+'/demo_test.go.txt', d+'/demo_test.go.txt')
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d+'/meta.json', 'w'), indent=1)
            e = dict(ENV, VERIF_REPO=repo, VERIF_ROOT=w+'/vr'); os.makedirs(w+'/vr')
            c = subprocess.run(['/verif/bin/pdftcheck', s['prop'] if '-1' in want else 'all'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            caught = [l.split('property=')[1].split()[0] for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print(s['id'], 'OK', 'caught by', caught, '' if s['prop'] in caught else '*** MISSED by ' + s['prop'])
            for l in c.stdout.splitlines():
                if l.startswith(s['prop']+' '): print('     ', l[:300])
        finally:
            shutil.rmtree(w)
main()
