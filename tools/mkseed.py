#!/usr/bin/env python3
"""Makes a planted bug: python3 mkseed.py DIR, where DIR holds edit.py (EDITS, PROPERTY, NEEDS, BREAKS) and demo_test.go.
Confirms in a scratch copy that it builds, passes the stable tests and is shown by its demonstration; writes /verif/seeded/<id>."""
import sys, os, subprocess, json, shutil, importlib.util, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOPATH='/root/go')
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + ENV['PATH']
DEMO = '''#!/bin/bash
# Exit 0: the behaviour is right; otherwise it is not. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp "$here"/demo_test.go "$t"/
cp "$repo"/go.sum "$t"/
{
  echo 'module demo'
  sed -n '/^go /p;/^require/,/^)/p' "$repo"/go.mod
  echo 'require github.com/juju/worker/v4 v4.0.0'
  echo "replace github.com/juju/worker/v4 => $repo"
} > "$t"/go.mod
cd "$t" && go test -vet=off -count=1 -timeout 120s @ARGS@ .
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(d):
    d = os.path.abspath(d); sid = os.path.basename(d)
    spec = importlib.util.spec_from_file_location('e', d + '/edit.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); repo = tmp + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        demo = tmp + '/demo'; os.makedirs(demo)
        shutil.copy(d + '/demo_test.go', demo); open(demo + '/demo.sh', 'w').write(DEMO.replace('@ARGS@', getattr(m, 'ARGS', '')))
        r = run(['bash', demo + '/demo.sh'], repo)
        if r.returncode != 0: print(sid, 'DEMO FAILS ON UNCHANGED TREE'); print(r.stdout[-3000:]); return 1
        for f, old, new in m.EDITS:
            s = open(f'{repo}/{f}').read()
            if s.count(old) != 1: print(sid, 'edit does not apply', f, s.count(old), repr(old[:80])); return 1
            open(f'{repo}/{f}', 'w').write(s.replace(old, new))
        r = run(['go', 'build', './...'], repo)
        if r.returncode: print(sid, 'DOES NOT BUILD', r.stdout); return 1
        r = run(['bash', demo + '/demo.sh'], repo)
        if r.returncode == 0: print(sid, 'DEMO PASSES WITH THE PATCH'); return 1
        dout = r.stdout
        for i in range(2):
            r = run(['go', 'test', '-vet=off', '-count=1', '-timeout', '3m', './...'], repo)
            if r.returncode: print(sid, 'TESTS FAIL', '\n'.join(l for l in r.stdout.splitlines() if 'FAIL' in l)[:1500]); return 1
        out = f'/verif/seeded/{sid}'
        os.makedirs(out, exist_ok=True)
        diff = run(['git', 'diff'], repo).stdout
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(demo + '/demo_test.go', out); shutil.copy(demo + '/demo.sh', out)
        json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(out + '/meta.json', 'w'), indent=1)
        print(sid, 'OK'); print('\n'.join(l for l in dout.splitlines() if 'demo_test' in l)[:300])
        return 0
    finally:
        shutil.rmtree(tmp)
if __name__ == '__main__':
    sys.exit(max(main(x) for x in sys.argv[1:]))
