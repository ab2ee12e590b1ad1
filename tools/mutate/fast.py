"""Mutation testing of the checks without their models: record the cases every check runs,
then replay them against mutants and let TLC judge only the observations that changed.
  fast.py record DIR [IDs]              cases and observations on the unchanged tree
  fast.py run DIR MUTANTS OUT N [K]     N mutants at random per directory quota, K workers
Development only: no check uses this."""
import json, os, pickle, random, shutil, subprocess, sys, threading, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), 'lib'))
import common, checks


def record(d, ids):
    os.makedirs(d, exist_ok=True)
    rec = []

    def run(self, cases, keep=None, label='cases', race=False, env=None, binary=None, known={}):
        if not cases:
            return []
        obs = common.run_harness(cases, env=env, binary=binary)
        if binary is None:
            rec.append(dict(prop=self.prop, label=label, cases=cases, keep=keep, known=known, env=env, obs=obs))
        return obs
    common.Report.run = run
    for i in ids:
        f = os.path.join(d, i + '.pkl')
        if os.path.exists(f):
            continue
        rec.clear()
        t = time.time()
        try:
            getattr(checks, i.lower())(common.Report('zz' + i))
        except Exception as e:
            print(i, 'stopped:', repr(e)[:200])
        pickle.dump(rec, open(f, 'wb'))
        print(i, sum(len(r['cases']) for r in rec), '%.0fs' % (time.time() - t), flush=True)


GO = common.GOENV
FIRST = {'yaml/pretty': 'C22 C21', 'yaml/compiler': 'C10 C13 C09 C14 C11 C12 C05 C18 C15 C32', 'yaml/converter/legacy/internal': 'C25 C26 C24',
         'yaml/linter': 'C07 C06 C08', 'yaml/compiler/transform': 'C17 C16', 'yaml/signer': 'C20 C19', 'yaml/converter/gitlab': 'C27 C24',
         'yaml/converter/legacy/matrix': 'C26 C25', 'yaml/converter/bitbucket': 'C28 C24', 'yaml/compiler/image': 'C15 C11', 'yaml/converter': 'C24',
         'yaml/converter/internal': 'C24 C27', 'yaml/converter/legacy': 'C25', 'yaml': 'C03 C02 C01 C23 C04 C05 C20'}


def run(d, mfile, out, total, workers, seed):
    groups = []
    for f in sorted(os.listdir(d)):
        groups += pickle.load(open(os.path.join(d, f), 'rb'))
    seen = set()
    g2 = []
    for g in groups:
        # observations that differ from run to run say nothing here
        again = common.run_harness(g['cases'], env=g['env'])
        keep = [k for k in range(len(again)) if again[k] == g['obs'][k]]
        print(g['prop'], g['label'], len(again), len(keep), flush=True)
        g['cases'] = [g['cases'][k] for k in keep]
        g['obs'] = [g['obs'][k] for k in keep]
        if keep:
            g2.append(g)
    groups = g2
    for g in groups:
        if g['prop'] == 'zzC31' and len(g['cases']) > 400:
            q = random.Random(2).sample(range(len(g['cases'])), 400)
            g['cases'], g['obs'] = [g['cases'][k] for k in q], [g['obs'][k] for k in q]
    ms = [m for m in map(json.loads, open(mfile)) if m['file'] != 'main.go']
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l)
            done.add((m['file'], m['off'], m['new']))
    ms = [m for m in ms if (m['file'], m['off'], m['new']) not in done][:total]
    lock = threading.Lock()
    o = open(out, 'a')

    def worker(n):
        w = '/tmp/fastw/%d' % n
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
        subprocess.run(GO + 'cp go.mod %s.mod; cp go.sum %s.sum; go mod edit -exclude=docker.io/go-docker@v1.0.0 %s.mod' % (w, w, w), shell=True, cwd=w, executable='/bin/bash')
        hs = w + '.h'
        shutil.rmtree(hs, ignore_errors=True)
        shutil.copytree(os.path.join(common.VERIF, 'harness'), hs)
        p = hs + '/go.mod'
        s = open(p).read().replace('=> /repo', '=> ' + w)
        open(p, 'w').write(s)
        b = w + '.bin'

        def tests():
            r = subprocess.run(GO + 'export GOFLAGS="-modfile=%s.mod -mod=readonly"; timeout 120 go test -vet=off -json ./...' % w, shell=True, cwd=w, executable='/bin/bash', capture_output=True, text=True)
            ok = set()
            for l in r.stdout.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get('Test') and e['Action'] == 'pass':
                    ok.add((e['Package'], e['Test']))
            return ok
        ref = tests()
        while True:
            with lock:
                if not ms:
                    return
                m = ms.pop()
            p = os.path.join(w, m['file'])
            src = open(p, 'rb').read()
            open(p, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
            try:
                r = subprocess.run(GO + 'cd %s && go build -o %s .' % (hs, b), shell=True, executable='/bin/bash', capture_output=True)
                if r.returncode:
                    continue
                if not ref <= tests():
                    continue
                t = time.time()
                diffs, caught, why = 0, [], []
                first = FIRST.get(os.path.dirname(m['file']), '').split()
                first += ['C31'] * ('C31' not in first)
                for g in sorted((g for g in groups if g['prop'][2:] in first), key=lambda g: first.index(g['prop'][2:])):
                    if caught or time.time() - t > 240:
                        break
                    try:
                        r = subprocess.run([b], input=('\n'.join(json.dumps({k: v for k, v in c.items() if k not in ('docs', 'j', 'note')}) for c in g['cases']) + '\n').encode(),
                                           capture_output=True, timeout=200, env=dict(os.environ, TMPDIR=w, **(g['env'] or {})), cwd=w)
                        if r.returncode:
                            caught = ['died']
                            break
                        obs = [json.loads(l) for l in r.stdout.decode().splitlines()]
                    except subprocess.TimeoutExpired:
                        caught = ['timeout']
                        break
                    ch = [k for k in range(len(obs)) if obs[k] != g['obs'][k]]
                    diffs += len(ch)
                    if not ch:
                        continue
                    q = ch if len(ch) <= 150 else random.Random(1).sample(ch, 150)
                    try:
                        bad = common.judge([g['cases'][k] for k in q], [obs[k] for k in q], heap='3g')
                    except common.CheckError as e:
                        why.append(['judge', str(e)[-300:]])
                        continue
                    for k, cl in bad.items():
                        mine = [c for c in cl if g['keep'] is None or c in g['keep'] or c in ('crash', 'untyped')]
                        if mine and not all(c in g['known'] for c in mine):
                            caught = [g['prop'], g['label']] + mine
                            break
                        elif len(why) < 4:
                            why.append([g['prop'], g['label'], cl])
                with lock:
                    o.write(json.dumps({**m, 'n': len(groups), 'old': src[m['off']:m['end']].decode(), 'caught': caught, 'diffs': diffs, 'why': why, 't': round(time.time() - t, 1)}) + '\n')
                    o.flush()
            finally:
                open(p, 'wb').write(src)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    if sys.argv[1] == 'record':
        record(sys.argv[2], sys.argv[3:] or ['C%02d' % i for i in range(1, 34) if i not in (29, 30)])
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6]) if len(sys.argv) > 6 else 4, sys.argv[7] if len(sys.argv) > 7 else '1')
