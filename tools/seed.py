#!/usr/bin/env python3
"""seed.py make FILE.py        write /verif/seeded/<id>/ from the definitions in FILE.py
seed.py verify ID...           patch applies, builds, stable tests pass, demo tells the trees apart
seed.py check ID... [PROP...]  run the property's check against the planted bug
Development only; no check uses this or /verif/seeded."""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap
SEED = '/verif/seeded'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', GOTOOLCHAIN='local', GOPROXY='off', GO111MODULE='on', GOWORK='off',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
DEMO = '''#!/bin/bash
# exit 0 when the property's example holds, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOFLAGS
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/d.mod" && cp go.sum "$tmp/d.sum" && go mod edit -exclude=docker.io/go-docker@v1.0.0 "$tmp/d.mod" || exit 2
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/seeded_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/o.json"
export DEMO_TMP=$tmp
go test -modfile="$tmp/d.mod" -mod=readonly -vet=off %(flags)s-count=1 -overlay "$tmp/o.json" ./%(pkg)s -run '^TestSeeded$'
'''


def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, executable='/bin/bash', cwd=cwd, env=kw.pop('env', ENV), capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = run('git -C /repo archive HEAD | tar x -C ' + d)
    assert r.returncode == 0, r.stderr
    return d


def make(path):
    g = {}
    exec(open(path).read(), g)
    for s in g['SEEDS']:
        d = os.path.join(SEED, s['id'])
        os.makedirs(d, exist_ok=True)
        w = scratch()
        run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=w)
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit('%s: %d matches in %s for %r' % (s['id'], t.count(old), f, old))
            open(p, 'w').write(t.replace(old, new))
        diff = run('git diff', cwd=w).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.rmtree(w)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'pkg': s['pkg'], 'flags': s.get('flags', '')})
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo_test.go'), 'w').write(textwrap.dedent(s['test']).strip() + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def gomod(w):
    return 'cp go.mod %s.mod && cp go.sum %s.sum && go mod edit -exclude=docker.io/go-docker@v1.0.0 %s.mod && export GOFLAGS="-modfile=%s.mod -mod=readonly"; ' % (w, w, w, w)


def base_lines(diff):
    """removed lines must be the original repository's"""
    base = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, capture_output=True, text=True).stdout.strip()
    f, n, bad, ok = None, 0, [], 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            bl = run('git -C /repo blame -l -s %s' % f).stdout.splitlines()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            (bad.append((f, n + 1)) if bl[n].split()[0].lstrip('^')[:30] != base[:30] else None)
            ok += bl[n].split()[0].lstrip('^')[:30] == base[:30]
            n += 1
        elif l.startswith(' '):
            n += 1
    return ok, bad


def verify(i):
    d = os.path.join(SEED, i)
    diff = open(os.path.join(d, 'patch.diff')).read()
    ok, bad = base_lines(diff)
    w = scratch()
    try:
        a = run(os.path.join(d, 'demo.sh'), cwd=w)
        if a.returncode:
            return 'DEMO FAILS UNPATCHED\n' + a.stdout[-1500:] + a.stderr[-1500:]
        r = run('git apply --unsafe-paths --directory=%s %s' % (w, os.path.join(d, 'patch.diff')), cwd='/')
        if r.returncode:
            r = run('patch -p1 < ' + os.path.join(d, 'patch.diff'), cwd=w)
            if r.returncode:
                return 'DOES NOT APPLY ' + r.stderr + r.stdout
        r = run(gomod(w) + 'go build ./... && go build -tags oss ./yaml/converter/', cwd=w)
        if r.returncode:
            return 'DOES NOT BUILD ' + r.stderr[-1000:]
        a = run(os.path.join(d, 'demo.sh'), cwd=w)
        if a.returncode == 0:
            return 'DEMO PASSES PATCHED'
        why = [l for l in (a.stdout + a.stderr).splitlines() if l.strip()][:6]
        r = run(gomod(w) + 'go test -json -vet=off -count=1 $(go list -e ./... | grep -vE "/yaml/converter/(gitlab|legacy/internal)$") > %s.log; python3 /opt/vp/results.py %s.out gojson:%s.log' % (w, w, w), cwd=w)
        res = json.load(open(w + '.out'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [t for t in stable if t not in res['passed']]
        if miss:
            return 'STABLE TESTS FAIL ' + str(miss[:4])
        return 'ok (base lines %d%s)  %s' % (ok, '' if not bad else ', NOT BASE: %s' % bad, ' | '.join(why)[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        for x in ('.mod', '.sum', '.log', '.out'):
            if os.path.exists(w + x):
                os.unlink(w + x)


def check(i, props):
    d = os.path.join(SEED, i)
    w = scratch()
    try:
        r = run('patch -p1 < ' + os.path.join(d, 'patch.diff'), cwd=w)
        assert r.returncode == 0, r.stdout
        res = []
        for p in props or [json.load(open(os.path.join(d, 'meta.json')))['property']]:
            r = run('python3 /verif/check.py ' + p, env=dict(os.environ, VERIF_REPO=w))
            res.append('%s: %d %s' % (p, r.returncode, {1: 'caught', 0: 'MISSED', 2: 'NO ANSWER'}.get(r.returncode, '?')))
            res.append('\n    '.join([''] + (r.stdout + r.stderr).splitlines()[:4 if r.returncode != 2 else 20]))
        return ' '.join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(args[0])
    elif cmd == 'verify':
        for i in args or sorted(os.listdir(SEED)):
            print(i, verify(i), flush=True)
    elif cmd == 'check':
        ids = [a for a in args if not re.match(r'C\d\d$', a)]
        for i in ids or sorted(os.listdir(SEED)):
            print(i, check(i, [a for a in args if re.match(r'C\d\d$', a)]), flush=True)
