"""Plumbing shared by the checks: building the harness from /repo, running it,
running TLC, reporting. Verdicts come from TLC (spec/Judge.tla and the MC_*
models), never from here."""
import atexit, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')  # another tree while developing
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
QUICK = TIER != 'thorough'
WORK = tempfile.mkdtemp(prefix='verif-')
os.chmod(WORK, 0o755)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()


def cleanup():
    shutil.rmtree(WORK, ignore_errors=True)


atexit.register(cleanup)


class CheckError(Exception):
    """the check cannot give an answer (exit 2)"""


def scale(n):
    """quick size of a corpus, times VERIF_SCALE or 8 when thorough"""
    f = float(os.environ.get('VERIF_SCALE', '1' if QUICK else '8'))
    return max(1, int(n * f))


def sh(cmd, timeout=600, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, shell=isinstance(cmd, str), executable='/bin/bash' if isinstance(cmd, str) else None,
                          capture_output=True, timeout=timeout, env=e, cwd=cwd, input=inp)


# as /opt/vp/env.sh, without writing there: one module of go.mod is not available offline and not imported
GOENV = ('export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off '
         'GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod; ')
_built = {}


def harness_source(to):
    shutil.copytree(os.path.join(VERIF, 'harness'), to)
    if REPO != '/repo':
        p = os.path.join(to, 'go.mod')
        s = open(p).read().replace('=> /repo', '=> ' + REPO)
        open(p, 'w').write(s)


def build_harness(race=False):
    if race in _built:
        return _built[race]
    src = os.path.join(WORK, 'hsrc' + ('r' if race else ''))
    harness_source(src)
    out = os.path.join(WORK, 'harness' + ('-race' if race else ''))
    r = sh(GOENV + 'cd %s && go build %s -o %s .' % (src, '-race' if race else '', out), timeout=800)
    if r.returncode != 0:
        raise CheckError('harness does not build:\n' + r.stderr.decode(errors='replace')[-3000:])
    _built[race] = out
    return out


def build_sub(pkg):
    """one of the small programs beside the harness"""
    src, out = os.path.join(WORK, 'hsub-' + pkg), os.path.join(WORK, 'sub-' + pkg)
    if not os.path.exists(out):
        harness_source(src)
        r = sh(GOENV + 'cd %s && go build -o %s ./%s' % (src, out, pkg), timeout=800)
        if r.returncode != 0:
            raise CheckError(pkg + ' does not build:\n' + r.stderr.decode(errors='replace')[-3000:])
    return out


def build_main():
    out = os.path.join(WORK, 'drone-yaml')
    if not os.path.exists(out):
        mod = os.path.join(WORK, 'main.mod')
        r = sh(GOENV + 'cp %s/go.mod %s && cp %s/go.sum %s.sum && go mod edit -exclude=docker.io/go-docker@v1.0.0 %s && cd %s && go build -modfile=%s -mod=readonly -o %s .'
               % (REPO, mod, REPO, mod[:-4], mod, REPO, mod, out), timeout=800)
        if r.returncode != 0:
            raise CheckError('main does not build:\n' + r.stderr.decode(errors='replace')[-3000:])
    return out


def run_harness(cases, race=False, env=None, timeout=600, binary=None, raw=False):
    """observations, one per case (the case minus fields the harness ignores)"""
    b = binary or build_harness(race)
    inp = '\n'.join(json.dumps({k: v for k, v in c.items() if k not in ('docs', 'j', 'note')}) for c in cases) + '\n'
    e = {'TMPDIR': WORK}
    if env:
        e.update(env)
    try:
        r = sh([b], inp=inp.encode(), timeout=timeout, env=e, cwd=WORK)
    except subprocess.TimeoutExpired:
        r = None
        if raw:
            raise CheckError('harness timed out')
    if raw:
        return r
    if r is None or r.returncode not in (0, 3):
        # the process died (stack overflow, out of memory, fatal error): find the case
        if len(cases) == 1:
            return [{'crash': 'fatal', 'msg': 'timed out' if r is None else r.stderr.decode(errors='replace')[:300]}]
        h = len(cases) // 2
        t = max(60, timeout // 2)
        return run_harness(cases[:h], race, env, t, binary) + run_harness(cases[h:], race, env, t, binary)
    if r.returncode != 0:
        raise CheckError('harness failed (%d): %s' % (r.returncode, r.stderr.decode(errors='replace')[-3000:]))
    obs = [json.loads(l) for l in r.stdout.decode().splitlines()]
    if len(obs) != len(cases):
        raise CheckError('harness answered %d of %d cases' % (len(obs), len(cases)))
    return obs


def clean(x):
    """JSON without null (TLC has none): keys with null are dropped"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


class Stats:
    states = 0
    transitions = 0
    traces = 0
    cmds = []
    models = []


class TlcError(CheckError):
    def __init__(self, out, *a):
        super().__init__(*a)
        self.out = out


def tlc(module, cfg=None, env=None, timeout=850, workers=8, heap='6g', extra=(), simulate=None):
    """run TLC, return (output, generated, distinct)"""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=WORK)
    cfgf = cfg or os.path.join(SPEC, module + '.cfg')
    cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-Xss64m',
           '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', meta, '-config', cfgf]
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    out = r.stdout.decode('utf-8', errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    gen = int(m.group(1).replace(',', '')) if m else 0
    dis = int(m.group(2).replace(',', '')) if m else 0
    Stats.states += dis
    Stats.transitions += gen
    if 'Model checking completed. No error has been found' not in out and not simulate:
        raise TlcError(out, 'TLC failed on %s:\n%s' % (module, '\n'.join(out.splitlines()[-60:])[-6000:]))
    if simulate and ('Error:' in out):
        raise CheckError('TLC failed on %s:\n%s' % (module, out[-4000:]))
    return out, gen, dis


def printed(out):
    """JSON values printed with PrintT(ToJson(..))"""
    res = []
    for l in out.splitlines():
        if l.startswith('"{') or l.startswith('"['):
            try:
                res.append(json.loads(json.loads(l)))
            except ValueError:
                pass
    return res


def model(name, consts=None, env=None, timeout=600, workers=8, simulate=None, extra=()):
    """model-check spec/<name>.tla (constants override those of its cfg) and return what it printed"""
    cfg = os.path.join(SPEC, name + '.cfg')
    if consts:
        s = open(cfg).read()
        for k, v in consts.items():
            s, n = re.subn(r'(?m)^(\s*(?:CONSTANT\s+)?%s\s*=).*$' % k, lambda m: m.group(1) + ' ' + str(v), s)
            if n != 1:
                raise CheckError('constant %s in %s' % (k, name))
        cfg = os.path.join(WORK, name + '.cfg')
        open(cfg, 'w').write(s)
    out, gen, dis = tlc(name, cfg=cfg, env=env, timeout=timeout, workers=workers, simulate=simulate, extra=extra)
    Stats.models.append({'model': name, 'constants': consts or 'cfg', 'distinct_states': dis, 'generated': gen})
    return printed(out)


def judge(cases, obs, module='Judge', heap='8g'):
    """TLC decides every (case, observation); returns {index: clauses} of those it rejects"""
    if not cases:
        return {}
    path = tempfile.mktemp(prefix='cases-', suffix='.ndjson', dir=WORK)
    with open(path, 'w') as f:
        for c, o in zip(cases, obs):
            d = {k: v for k, v in c.items() if k not in ('text', 'note', 'b64')}
            d['o'] = o
            f.write(json.dumps(clean(d), ensure_ascii=False) + '\n')
    try:
        out, gen, dis = tlc(module, env={'CASES': path}, heap=heap)
    except TlcError as e:
        # an observation of a kind that the specification cannot even compare with what it wants
        at = [int(x) for x in re.findall(r'(?m)^i = (\d+)$', e.out)]
        if not at or not re.search(r'Attempted to|In applying the function|not in the domain|Field name', e.out):
            raise
        bad = {p['bad'] - 1: sorted(p['clauses']) for p in printed(e.out) if 'bad' in p}
        if len(cases) > 1:
            k = at[-1] - 1
            bad.update({k: x for x in judge([cases[k]], [obs[k]], module, heap).values()})
            if not bad:
                raise
        else:
            bad[0] = ['untyped']
        os.unlink(path)
        Stats.traces += len(bad)
        return bad
    if dis != len(cases):
        raise CheckError('TLC judged %d of %d cases' % (dis, len(cases)))
    Stats.traces += len(cases)
    os.unlink(path)
    return {p['bad'] - 1: sorted(p['clauses']) for p in printed(out) if 'bad' in p}


def explore(cases, module, timeout=850):
    """run a specification whose initial states are the cases; what it prints"""
    path = tempfile.mktemp(prefix='cases-', suffix='.ndjson', dir=WORK)
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(clean(c), ensure_ascii=False) + '\n')
    out, gen, dis = tlc(module, env={'CASES': path}, heap='8g', timeout=timeout)
    Stats.models.append({'model': module, 'cases': len(cases), 'distinct_states': dis, 'generated': gen})
    Stats.traces += len(cases)
    os.unlink(path)
    return printed(out)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.samples = []
        self.notes = {}
        self.known = []
        self.assumptions = []
        self.distinct = set()
        self.sizes = {}
        for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay', prop + '-*.json')):
            os.unlink(f)

    def sample(self, x, n=4):
        if len(self.samples) < 12:
            s = json.dumps(x, ensure_ascii=False)
            self.samples.append(x if len(s) < 1500 else s[:1500] + '…')

    def violation(self, case, obs, clauses, what=''):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        if len(self.violations) < 20:
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'clauses': clauses, 'what': what, 'case': case, 'observed': obs}, f, indent=1, ensure_ascii=False)
        self.violations.append((p, clauses, what))

    def known_finding(self, key):
        """the recorded finding of this property whose line starts with key, if any"""
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=%s (.*)' % self.prop, l)
            if m and m.group(1).startswith(key):
                return m.group(1).strip()

    def run(self, cases, keep=None, label='cases', race=False, env=None, binary=None, known={}):
        """run cases on the code, have TLC judge them, report what it rejects.
        keep: the clauses that belong to this property (None: all);
        known: clause -> recorded finding that it shows"""
        if not cases:
            return []
        obs = run_harness(cases, race=race, env=env, binary=binary)
        bad = judge(cases, obs)
        for i, cl in sorted(bad.items()):
            mine = [c for c in cl if keep is None or c in keep or c in ('crash', 'untyped')]
            if mine:
                f = mine and all(c in known for c in mine) and self.known_finding(known[mine[0]])
                if f:
                    self.known += [f] if f not in self.known else []
                else:
                    self.violation(cases[i], obs[i], mine, label)
        self.sizes[label] = self.sizes.get(label, 0) + len(cases)
        for c in cases:
            self.distinct.add(hash(json.dumps({k: v for k, v in c.items() if k != 'docs'}, sort_keys=True)))
        for i in (0, len(cases) // 2):
            self.sample({k: v for k, v in cases[i].items() if k != 'docs'})
        return obs

    def finish(self, level='model_checking'):
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': level,
              'coverage': {'states': Stats.states, 'transitions': Stats.transitions,
                           'traces_validated_against_impl': Stats.traces,
                           'distinct_nontrivial': len(self.distinct),
                           'cases_by_kind': self.sizes, 'models': Stats.models,
                           'samples': self.samples, **self.notes},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.violations:
            for p, cl, what in self.violations[:5]:
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                print('  %s: %s' % (what, ', '.join(cl)))
            if len(self.violations) > 5:
                print('  … %d in all' % len(self.violations))
            return 1
        print('OK property=%s tier=%s seed=%d states=%d traces=%d %.1fs' % (self.prop, TIER, SEED, Stats.states, Stats.traces, time.time() - T0))
        return 0


def rng(*salt):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, salt))))
