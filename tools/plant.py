#!/usr/bin/env python3
"""plant.py SPEC.py [-n] [id...] : plants the bugs of a spec file.

A spec is a Python file with BUGS = [dict(id, prop, needs, breaks, edits, demo|sh,
[decls], [race])], edits = [(file, old, new)]. For each: scratch copy of /repo, apply,
check that only original lines change, build, stable tests, demo on the clean and
on the patched tree; then /verif/seeded/<id>/ is written and the property's check is
run on the scratch copy (not with -n)."""
import sys, os, re, json, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HELP = open(HERE + '/demo/helpers.go.txt').read()
IMPORTS = {'json': '"encoding/json"', 'jsval': '"github.com/lestrrat-go/jsval"', 'builder': '"github.com/lestrrat-go/jsval/builder"',
  'schema': '"github.com/lestrrat-go/jsschema"', 'strings': '"strings"', 'testing': '"testing"', 'bytes': '"bytes"', 'os': '"os"',
  'exec': '"os/exec"', 'fmt': '"fmt"', 'regexp': '"regexp"', 'sync': '"sync"', 'time': '"time"', 'reflect': '"reflect"', 'errors': '"errors"',
  'httptest': '"net/http/httptest"', 'http': '"net/http"', 'server': '"github.com/lestrrat-go/jsval/server"', 'runtime': '"runtime"',
  'math': '"math"', 'io': '"io"', 'sort': '"sort"', 'atomic': '"sync/atomic"', 'strconv': '"strconv"', 'format': '"go/format"', 'filepath': '"path/filepath"'}
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 2
W=$(mktemp -d) || exit 2
trap 'rm -rf -- "$W"' EXIT
cp "$D/demo_test.go.txt" "$W/demo_test.go" || exit 2
printf '{"Replace": {"/repo/zz_demo_test.go": "%%s/demo_test.go"}}' "$W" >"$W/overlay.json"
timeout 250 go test -vet=off %s-count=1 -overlay "$W/overlay.json" -run '^TestZZDemo$' .
'''
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOWORK='off')

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def gofile(b):
    body = 'func TestZZDemo(t *testing.T) {\n' + b['demo'].strip('\n') + '\n}\n'
    decls = b.get('decls', '')
    # only the helpers which are used
    funcs = re.split(r'\n\n(?=// \w+ |type validator|func good|func bad)', HELP)
    used, text = [], body + decls
    changed = True
    while changed:
        changed = False
        for f in funcs:
            name = re.search(r'(?:func|type) (\w+)', f).group(1)
            if f not in used and re.search(r'\b%s\b' % name, text):
                used.append(f); text += f; changed = True
    imps = sorted({IMPORTS[m] for m in re.findall(r'\b(\w+)\.', re.sub(r'`[^`]*`', '``', text)) if m in IMPORTS} | {'"testing"'})
    src = 'package jsval_test\n\nimport (\n' + ''.join('\t%s\n' % i for i in imps) + ')\n\n' + body + '\n' + decls + '\n' + '\n\n'.join(f for f in funcs if f in used)
    p = subprocess.run(['gofmt'], input=src, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.stdout if p.returncode == 0 else sys.exit(b['id'] + ': demo: ' + p.stderr)

def plant(b, check, out):
    bid = b['id']
    sc = tempfile.mkdtemp(prefix='plant-%s-' % bid)
    try:
        repo = sc + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in b['edits']:
            s = open(repo + '/' + f).read()
            if s.count(old) != 1: return bid, 'EDIT: %d matches in %s of %r' % (s.count(old), f, old)
            open(repo + '/' + f, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', repo)
        rc, d0 = sh('git diff -U0', repo)
        cur, removed = None, 0
        for l in d0.splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0: continue
                _, bl = sh('git blame -s -L %d,+%d HEAD -- %s' % (a, n, cur), repo)
                for x in bl.splitlines():
                    removed += 1
                    if not x.startswith('^'): return bid, 'NOT ORIGINAL: ' + x
        if not removed: return bid, 'pure insertion'
        rc, o = sh('go build ./... && go vet ./builder >/dev/null 2>&1; go test -vet=off ./... 2>&1', repo)
        if rc: return bid, 'TESTS FAIL:\n' + o[-1500:]
        d = out + '/' + bid
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        if 'sh' in b:
            open(d + '/demo.sh', 'w').write(b['sh'])
        else:
            open(d + '/demo_test.go.txt', 'w').write(gofile(b))
            open(d + '/demo.sh', 'w').write(SH % ('-race ' if b.get('race') else b.get('flags', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # run the demo where /repo is the clean tree, and where it is the scratch copy
        rc, o = sh('bash %s/demo.sh' % d)
        if rc: return bid, 'DEMO FAILS ON CLEAN TREE:\n' + o[-2000:]
        d2 = sc + '/demo'
        shutil.copytree(d, d2)
        for f in os.listdir(d2):
            p = d2 + '/' + f
            s = open(p).read()
            if f.endswith('.sh') or f.endswith('.txt'): open(p, 'w').write(s.replace('/repo/', repo + '/').replace('cd /repo', 'cd ' + repo).replace('-C /repo', '-C ' + repo))
        rc, o = sh('bash %s/demo.sh' % d2)
        if rc == 0: return bid, 'DEMO PASSES WITH THE BUG:\n' + o[-1500:]
        if 'build failed' in o or 'setup failed' in o: return bid, 'DEMO DOES NOT BUILD:\n' + o[-1500:]
        if not check: return bid, 'planted'
        rc, o = sh('%s/run.sh %s %s' % (b.get('verif', VERIF), b['prop'], os.environ.get('TIER', 'quick')), env=dict(ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get('SEED', '1')))
        vio = 'VIOLATION property=' + b['prop'] in o
        if rc == 1 and vio: return bid, 'caught'
        return bid, 'MISSED rc=%d %s' % (rc, o[-600:] if rc else '')
    finally:
        shutil.rmtree(sc, ignore_errors=True)

def main():
    args = sys.argv[1:]
    spec = args.pop(0)
    check = True
    if '-n' in args: args.remove('-n'); check = False
    ns = {}
    exec(open(spec).read(), ns)
    bugs = [b for b in ns['BUGS'] if not args or b['id'] in args]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for f in cf.as_completed([ex.submit(plant, b, check, VERIF + '/seeded') for b in bugs]):
            print(*f.result(), sep=': ', flush=True)
main()
