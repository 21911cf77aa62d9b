#!/usr/bin/env python3
"""Confirm and record planted bugs.

usage: mkseed.py SPEC.py ...      each SPEC.py defines seeds = [dict(...)]
  id, property, needs, what, edits=[(file, old, new)], demo='go test body'
A seed is kept only if, in a scratch copy of /repo: the demo passes without the
edit, the edited tree builds, passes the stable tests, and the demo fails.
"""
import sys, os, subprocess, json, shutil, re
V = '/verif/seeded'
S = '/tmp/seedwork'
env = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root',
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1')
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, nonzero if the planted bug shows
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
timeout 200 go test -vet=off -count=1 -overlay "$T/o.json" -run '^TestSeedDemo$' .
'''
HEAD = '''package golisp

import (
	"testing"
%s)

func seedEval(t *testing.T, src string) *Data {
	r, err := ParseAndEvalAll(src)
	if err != nil {
		t.Fatalf("%%s: %%v", src, err)
	}
	return r
}

func seedIs(t *testing.T, src, want string) {
	r, err := ParseAndEvalAll(src)
	if err != nil {
		t.Errorf("%%s: error %%v, want %%s", src, err, want)
		return
	}
	if got := String(r); got != want {
		t.Errorf("%%s: got %%s, want %%s", src, got, want)
	}
}

func seedErr(t *testing.T, src string) {
	r, err := ParseAndEvalAll(src)
	if err == nil {
		t.Errorf("%%s: got %%s, want an error", src, String(r))
	}
}

%s
func TestSeedDemo(t *testing.T) {
%s}
'''
def sh(c, cwd=S, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def stable():
    t = open('/opt/vp/test.sh').read().replace('/repo', S)
    open('/tmp/seedtest.sh', 'w').write(t)
    r = sh('bash /tmp/seedtest.sh /tmp/seed.json')
    res = json.load(open('/tmp/seed.json'))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(res.get('passed', res.get('pass', [])))
    return sorted(base - passed)

def main():
    if os.path.exists(S): shutil.rmtree(S)
    shutil.copytree('/repo', S, symlinks=True)
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns['seeds']:
            sh('git checkout -q -- .')
            d = os.path.join('/tmp/seedout', s['id'])
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            imps = ''.join('\t"%s"\n' % i for i in s.get('imports', []))
            body = '\n'.join('\t' + l for l in s['demo'].strip('\n').split('\n')) + '\n'
            src = HEAD % (imps, s.get('decls', ''), body)
            open(d + '/demo_test.go', 'w').write(src)
            open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
            r = sh('bash %s/demo.sh' % d)
            if r.returncode != 0:
                print('REJECT', s['id'], 'demo fails on the clean tree\n', r.stdout[-1500:]); continue
            bad = False
            for (fn, old, new) in s['edits']:
                p = os.path.join(S, fn); t = open(p).read()
                if t.count(old) != 1:
                    print('REJECT', s['id'], 'edit matches', t.count(old), 'times in', fn, repr(old[:60])); bad = True; break
                open(p, 'w').write(t.replace(old, new))
            if bad: continue
            r = sh('gofmt -l *.go; go build ./... && go build -o /dev/null ./main')
            if r.returncode != 0:
                print('REJECT', s['id'], 'does not build\n', r.stdout[-1500:]); continue
            miss = stable()
            if miss:
                print('REJECT', s['id'], 'breaks tests', miss[:5]); continue
            r = sh('bash %s/demo.sh' % d)
            if r.returncode == 0:
                print('REJECT', s['id'], 'demo passes with the bug'); continue
            if 'build failed' in r.stdout:
                print('REJECT', s['id'], r.stdout[-800:]); continue
            diff = sh('git diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            # lines the patch removes must come from the original repository
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
            out = os.path.join(V, s['id'])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            print('KEPT', s['id'])
    shutil.rmtree(S); shutil.rmtree('/tmp/seedout', ignore_errors=True)
main()
